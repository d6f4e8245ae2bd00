import runpy,os
T=runpy.run_path(os.path.join(os.path.dirname(__file__),'a.py'))['T']
M='marshal.go'; W='write.go'; J='jsonutils.go'; U='unmarshal.go'; Q='querystring.go'; ST='string.go'; A='access.go'; EQ='equals.go'; I='interface.go'; Z='iszero.go'; CL='clone.go'; PT='jsonpointer.go'; S5='std_json.go'; D='dict.go'; UT='utils.go'; ER='errors.go'; LO='locales/locales.go'
FIN='''func finishes(t *testing.T, f func()) {
	done := make(chan bool)
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("does not end")
	}
}

'''
S={
'c11-last-element':dict(prop='C11',subs=[(U,'		for i, json := range this.data {\n			err := json.unmarshalValue(s, val.Index(i))\n			if err != nil {\n				return errors.Wrap(err, "unmarshalValue")\n			}\n		}\n','		var err error\n		for i, json := range this.data {\n			err = json.unmarshalValue(s, val.Index(i))\n		}\n		if err != nil {\n			return errors.Wrap(err, "unmarshalValue")\n		}\n')],
 needs='an array with an element of the wrong kind that is not the last',breaks='only the error of the last element of an array is reported',
 demo=T('\tvar v []int\n\tif err := NewArray(NewString("x"), NewInt(1)).Unmarshal(&v); err == nil {\n\t\tt.Fatal(v)\n\t}\n')),
'c11-query-partial':dict(prop='C11',subs=[(Q,'	m, err := url.ParseQuery(str)\n	if err != nil {','	m, err := url.ParseQuery(str)\n	if err != nil && len(m) == 0 {')],
 needs='a query string one pair of which is malformed',breaks='a malformed pair of a query string is dropped without an error when another pair can be read',
 demo=T('\tif q, err := ParseQueryString("a=1&b=%zz"); err == nil {\n\t\tt.Fatal(q)\n\t}\n')),
'c11-key-missing':dict(prop='C11',subs=[(U,'		jo, err = jo.Get(keys...)\n		if err != nil {\n			return errors.Wrap(err, "Get")\n		}','		jo, err = jo.Get(keys...)\n		if err != nil {\n			if errors.Cause(err) == ErrInvalidJsonDict {\n				jo = JSONNull\n			} else {\n				return errors.Wrap(err, "Get")\n			}\n		}')],
 needs='Unmarshal with a key path that leads through a scalar',breaks='a key path that leads through something else than an object is taken for null',
 demo=T('\tn := 7\n\tif err := NewDict(JSONPair{"a", NewInt(1)}).Unmarshal(&n, "a", "b"); err == nil {\n\t\tt.Fatal(n)\n\t}\n')),
'c18-key-order':dict(prop='C18',subs=[(ER,'	ErrOutOfKeyRange   = errors.Error("out of key range")','	ErrOutOfKeyRange   = errors.Error("key out of range")')],
 needs='the translation of the error for a key path that is too long',breaks='an error text has no entry in the catalog any more and is shown untranslated',
 demo=T('\t_, err := NewString("x").GetString("k")\n\tif s := message.NewPrinter(language.MustParse("zh-CN"), message.Catalog(locales.Catalog)).Sprintf(err.Error()); s == err.Error() {\n\t\tt.Fatal(s)\n\t}\n','golang.org/x/text/language','golang.org/x/text/message','yunion.io/x/jsonutils/locales')),
'c18-swapped':dict(prop='C18',subs=[(LO,'	"not a valid float":               4,\n	"not a valid number":              3,\n','	"not a valid float":               3,\n	"not a valid number":              4,\n')],
 needs='the message of the error for a text that is not a float',breaks='the messages of two errors are exchanged',
 demo=T('\tif s := message.NewPrinter(language.MustParse("en-US"), message.Catalog(locales.Catalog)).Sprintf("not a valid float"); s != "not a valid float" {\n\t\tt.Fatal(s)\n\t}\n','golang.org/x/text/language','golang.org/x/text/message','yunion.io/x/jsonutils/locales')),
'c24-default-null':dict(prop='C24',subs=[(D,'	dict.data = sortedmap.Merge(dict2.data, dict.data)','	if len(dict.data) == 0 || len(dict2.data) == 0 {\n		dict.Update(dict2)\n		return\n	}\n	for iter := sortedmap.NewIterator(dict2.data); iter.HasMore(); iter.Next() {\n		k, v := iter.Get()\n		if old, ok := dict.data.Get(k); !ok || old.(JSONObject).IsZero() {\n			dict.data = sortedmap.Add(dict.data, k, v)\n		}\n	}')],
 needs='a default for a key whose value is false, zero or empty',breaks='UpdateDefault replaces values that are zero',
 demo=T('\td := NewDict(JSONPair{"a", JSONFalse})\n\td.UpdateDefault(NewDict(JSONPair{"a", JSONTrue}))\n\tif b, _ := d.Bool("a"); b {\n\t\tt.Fatal(d)\n\t}\n')),
'c24-includes-fold':dict(prop='C24',subs=[(CL,'		exists, _ := utils.InStringArray(k, includes)\n		if exists {\n			dict.Set(k, v.(JSONObject))\n		}\n','		exists, at := utils.InStringArray(k, includes)\n		if exists && at > 0 || len(includes) > 0 && k == includes[0] {\n			dict.Set(k, v.(JSONObject))\n			if dict.Length() == 64 {\n				break\n			}\n		}\n')],
 needs='CopyIncludes with more than 64 keys that are there',breaks='CopyIncludes stops after 64 entries',
 demo=T('\td := NewDict()\n\tkeys := []string{}\n\tfor i := 0; i < 80; i++ {\n\t\tkeys = append(keys, strconv.Itoa(i))\n\t\td.Set(keys[i], JSONTrue)\n\t}\n\tif n := d.CopyIncludes(keys...).Length(); n != 80 {\n\t\tt.Fatal(n)\n\t}\n','strconv')),
'c29-add-empty-dict':dict(prop='C29',subs=[(A,'			if !ok || o == JSONNull {\n','			if !ok || o.(JSONObject).IsZero() {\n')],
 needs='Add along a key path that leads through an empty text, a zero or an empty dict shared with others',breaks='a zero value on the key path is replaced by a dict instead of being an error',
 demo=T('\td := NewDict(JSONPair{"a", NewString("")})\n\tif err := d.Add(NewInt(1), "a", "b"); err == nil {\n\t\tt.Fatal(d)\n\t}\n')),
'c30-index-modulo':dict(prop='C30',subs=[(A,'	if i < 0 {\n		i = len(this.data) + i\n	}\n	if i >= 0 && i < len(this.data) {','	if i < 0 && -i <= len(this.data) {\n		i = (len(this.data) + i) % len(this.data)\n	}\n	if i >= -len(this.data) && i < len(this.data) {')],
 needs='the smallest integer as index',breaks='GetAt(-i) overflows for the smallest integer and divides by zero or reads outside the array',
 demo=T('\tNewArray().GetAt(math.MinInt64)\n\tNewArray(JSONTrue).GetAt(math.MinInt64)\n','math')),
'c30-query-text':dict(prop='C30',subs=[(UT,'	jsonMap, err := data.GetMap()\n	if err != nil {\n		return errors.Wrap(err, "data.GetMap") //fmt.Errorf("fail to convert input to map")\n	}\n	for _, f := range fields {\n		jsonVal, ok := jsonMap[f]\n		if !ok {','	if _, err := data.GetMap(); err != nil {\n		return errors.Wrap(err, "data.GetMap") //fmt.Errorf("fail to convert input to map")\n	}\n	for _, f := range fields {\n		jsonVal, ok := data.(*JSONDict).data.Get(f)\n		if !ok {')],
 needs='CheckRequiredFields of a reference to a dict, as a tree read back from text with references has',breaks='a reference that answers GetMap is asserted to be a dict',
 demo=T('\tCheckRequiredFields(&sJSONPointer{node: NewDict(JSONPair{"a", JSONTrue})}, []string{"a"})\n')),
'c31-pretty-comma':dict(prop='C31',subs=[(J,'		if idx > 0 {\n			buffer.WriteString(",")\n		}\n		buffer.WriteByte(\'\\n\')\n		buffer.WriteString(tab)\n		buffer.WriteString("  ")\n		buffer.WriteString(quoteString(k))','		if idx > 0 && (this.nodeId == 0 || len(this.data) > 1) {\n			buffer.WriteString(",")\n		}\n		buffer.WriteByte(\'\\n\')\n		buffer.WriteString(tab)\n		buffer.WriteString("  ")\n		buffer.WriteString(quoteString(k))')],
 needs='the indented text of a dict with a node id and one entry',breaks='the comma between the id of a shared node and its only entry is missing',
 demo=T('\td := NewDict(JSONPair{"a", JSONTrue})\n\td.nodeId = 1\n\tvar v interface{}\n\tif err := json.Unmarshal([]byte(d.PrettyString()), &v); err != nil {\n\t\tt.Fatal(err, d.PrettyString())\n\t}\n','encoding/json')),
'c32-close-other':dict(prop='C32',subs=[(J,"		case ',':\n			i++\n		case ']':\n			i++\n			stop = true\n		default:\n			return list","		case ',':\n			i++\n		case ']', '}':\n			i++\n			stop = true\n		default:\n			return list")],
 needs='an array closed by a brace',breaks='a brace closes an array',
 demo=T('\tif j, err := ParseString("[1,2}"); err == nil {\n\t\tt.Fatal(j)\n\t}\n')),
'c16-float-yaml':dict(prop='C16',subs=[('yamlutils.go','func (this *JSONFloat) YAMLString() string {\n	return yamlString(this)','func (this *JSONFloat) YAMLString() string {\n	return yamlString(&this.JSONValue)')],
 needs='the YAML of a float node alone',breaks='a float alone is rendered as null in YAML',
 demo=T('\tif s := NewFloat64(1.5).YAMLString(); strings.TrimSpace(s) != "1.5" {\n\t\tt.Fatal(s)\n\t}\n','strings')),
'c19-ref-case':dict(prop='C19',subs=[(PT,'	return ptr.getNode().GetIgnoreCases(keys...)','	return ptr.getNode().Get(keys...)')],
 needs='a case-insensitive lookup in a reference',breaks='a reference ignores case in ContainsIgnoreCases but not in GetIgnoreCases',
 demo=T('\tp := &sJSONPointer{node: NewDict(JSONPair{"A", JSONTrue})}\n\tif _, err := p.GetIgnoreCases("a"); err != nil {\n\t\tt.Fatal(err)\n\t}\n')),
'c20-array-prefix':dict(prop='C20',subs=[(EQ,'	if len(arr.data) != len(arr2.data) {\n		return false\n	}\n	for i, v := range arr.data {\n		if !v.Equals(arr2.data[i]) {\n			return false\n		}\n	}\n	return true','	if len(arr.data) > len(arr2.data) {\n		return arr2.Equals(arr)\n	}\n	for i, v := range arr.data {\n		if !v.Equals(arr2.data[i]) {\n			return false\n		}\n	}\n	return len(arr.data) == len(arr2.data) || len(arr.data) > 0 && arr2.data[len(arr2.data)-1] == JSONNull')],
 needs='two arrays one of which is the other with nulls at the end',breaks='an array equals a longer one that ends in null',
 demo=T('\tif NewArray(NewInt(1)).Equals(NewArray(NewInt(1), JSONNull)) {\n\t\tt.Fatal("equal")\n\t}\n')),
'c05-text-base':dict(prop='C05',subs=[(A,'	val, e := strconv.ParseInt(this.data, 10, 64)','	val, e := strconv.ParseInt(this.data, 0, 64)')],
 needs='an integer in a string with a leading zero',breaks='a number text with a leading zero is read as octal',
 demo=T('\tif n, err := NewString("010").Int(); err != nil || n != 10 {\n\t\tt.Fatal(n, err)\n\t}\n')),
'c01-lone-bracket':dict(prop='C01',subs=[(J,"	} else if len(val) > 0 && val[0] == '<' && val[len(val)-1] == '>' {\n		// Pointer <nnnn>\n		val = val[1 : len(val)-1]","	} else if len(val) > 0 && val[0] == '<' {\n		// Pointer <nnnn>\n		val = strings.TrimSpace(val[1 : len(val)-1])")],
 needs='a bare word that is a single less-than sign',breaks='the bare word < is cut to a negative length',
 demo=T('\tParseString("[<]")\n')),
'c21-query-dict-gap':dict(prop='C21',subs=[(UT,'				if err != nil {\n					break\n				}\n				arr = append(arr, searchText)\n','				if err != nil && len(arr) < searchObj.(*JSONDict).Size() {\n					idx += 1\n					continue\n				} else if err != nil {\n					break\n				}\n				arr = append(arr, searchText)\n')],
 needs='a query dict with a key that is not a number',breaks='the search for the next index never ends when a key is no index',
 demo=T('\tfinishes(t, func() {\n\t\tGetQueryStringArray(NewDict(JSONPair{"q", NewDict(JSONPair{"0", NewString("a")}, JSONPair{"x", NewString("b")})}), "q")\n\t})\n','time',pre=FIN)),
'c21-prefix-gap':dict(prop='C21',subs=[(UT,'		if obj == nil || obj == JSONNull {\n			break\n		}\n','		if obj == JSONNull || obj == nil && !dictHas(json, prefix) {\n			break\n		}\n		if obj == nil {\n			idx += 1\n			continue\n		}\n'),(UT,'func GetArrayOfPrefix(','func dictHas(json JSONObject, key string) bool {\n	dict, ok := json.(*JSONDict)\n	return ok && dict.Contains(key)\n}\n\nfunc GetArrayOfPrefix(')],
 needs='a dict that has the prefix itself as a key',breaks='the search for the next element of a prefix never ends when the prefix is a key as well',
 demo=T('\tfinishes(t, func() {\n\t\tGetArrayOfPrefix(NewDict(JSONPair{"a", JSONTrue}, JSONPair{"a.0", JSONTrue}), "a")\n\t})\n','time',pre=FIN)),
'c24-diff-order':dict(prop='C24',subs=[(D,'			aDiffB.Set(k, NewArray(aJson, bJson))','			pair := NewArray(aJson)\n			if list, ok := bJson.(*JSONArray); ok && list.Length() > 0 {\n				pair.Add(list.data...)\n			} else {\n				pair.Add(bJson)\n			}\n			aDiffB.Set(k, pair)')],
 needs='a difference whose second value is an array with elements',breaks='Diff gives the elements of the second value instead of the value when it is an array',
 demo=T('\t_, d, _, _ := Diff(NewDict(JSONPair{"a", NewInt(1)}), NewDict(JSONPair{"a", NewArray(NewInt(2))}))\n\tif s := d.String(); s != `{"a":[1,[2]]}` {\n\t\tt.Fatal(s)\n\t}\n')),
'c29-set-same':dict(prop='C29',subs=[(A,'func (this *JSONDict) Set(key string, value JSONObject) {\n	this.data = sortedmap.Add(this.data, key, value)','func (this *JSONDict) Set(key string, value JSONObject) {\n	if old, ok := this.data.Get(key); !ok || value == nil || !value.Equals(old.(JSONObject)) {\n		this.data = sortedmap.Add(this.data, key, value)\n	}')],
 needs='Set of a value that equals the old one but is another node, which is changed later',breaks='Set keeps the old node when the new one is equal to it',
 demo=T('\td := NewDict(JSONPair{"a", NewDict()})\n\tn := NewDict()\n\td.Set("a", n)\n\tn.Set("x", JSONTrue)\n\tif s := d.String(); s != `{"a":{"x":true}}` {\n\t\tt.Fatal(s)\n\t}\n')),
'c31-id-comma':dict(prop='C31',subs=[(W,'		sb.WriteString(fmt.Sprintf("%d", this.nodeId))\n		idx++\n','		sb.WriteString(fmt.Sprintf("%d,", this.nodeId))\n')],
 needs='the text of an empty shared object',breaks='an empty dict with a node id is rendered with a trailing comma',
 demo=T('\td := NewDict()\n\td.nodeId = 1\n\tvar v interface{}\n\tif err := json.Unmarshal([]byte(d.String()), &v); err != nil {\n\t\tt.Fatal(err, d.String())\n\t}\n','encoding/json')),
'c32-stray-brace':dict(prop='C32',subs=[(J,"		case ' ', ':', ',', '\\t', '\\r', '\\n', '}', ']':\n			break ret2\n","		case ' ', ':', ',', '\\t', '\\r', '\\n', ']':\n			break ret2\n		case '}':\n			if i > offset {\n				break ret2\n			}\n			i++\n")],
 needs='a closing brace where a value is expected',breaks='a closing brace in the place of a value is read as a text',
 demo=T('\tif j, err := ParseString("[}]"); err == nil {\n\t\tt.Fatal(j)\n\t}\n')),
'c13-copy-order':dict(prop='C13',subs=[('interface.go','	ret := make([]interface{}, len(self.data))\n	for i := 0; i < len(self.data); i += 1 {\n		ret[i] = self.data[i].Interface()\n	}\n	return ret','	seen := make(map[JSONObject][]int)\n	for i, v := range self.data {\n		seen[v] = append(seen[v], i)\n	}\n	ret := make([]interface{}, 0, len(self.data))\n	for v, at := range seen {\n		for range at {\n			ret = append(ret, v.Interface())\n		}\n	}\n	if len(self.data) > 12 {\n		return ret\n	}\n	ret = ret[:0]\n	for _, v := range self.data {\n		ret = append(ret, v.Interface())\n	}\n	return ret')],
 needs='Interface of an array of more than twelve elements',breaks='the order of the elements of a long array follows map iteration',
 demo=T('\tarr := NewArray()\n\tfor i := 0; i < 40; i++ {\n\t\tarr.Add(NewInt(int64(i)))\n\t}\n\tif fmt.Sprint(arr.Interface()) != fmt.Sprint(arr.Interface()) {\n\t\tt.Fatal("differ")\n\t}\n','fmt')),
'c32-equals-sign':dict(prop='C32',subs=[(J,"		if str[i] != ':' {","		if str[i] != ':' && (str[i] != '=' || i+1 >= len(str) || str[i+1] != '>') {")],
 needs='an object member written with an arrow',breaks='an equals sign passes for the colon between key and value',
 demo=T('\tif j, err := ParseString("{\\"a\\"=>1}"); err == nil {\n\t\tt.Fatal(j)\n\t}\n')),
'c04-control-digit':dict(prop='C04',subs=[(J,"hexdigits[ch>>4], hexdigits[ch&0xf]","hexdigits[ch>>4], hexdigits[ch&0x7]")],
 needs='a string holding a control character with the fourth bit set, such as 0x1b',breaks='a control character is written with a wrong last digit',
 demo=T('\tj, err := ParseString(NewString("a\\x1bc").String())\n\tif s, _ := j.GetString(); err != nil || s != "a\\x1bc" {\n\t\tt.Fatalf("%q", s)\n\t}\n')),
}
