import runpy,os
T=runpy.run_path(os.path.join(os.path.dirname(__file__),'a.py'))['T']
M='marshal.go'; W='write.go'; J='jsonutils.go'; U='unmarshal.go'; Q='querystring.go'; ST='string.go'; A='access.go'; EQ='equals.go'; I='interface.go'; Z='iszero.go'; CL='clone.go'; PT='jsonpointer.go'; S5='std_json.go'; D='dict.go'
UP='''type demoUp string

func (u demoUp) MarshalJSON() ([]byte, error) { return []byte(quoteString("<<" + string(u) + ">>")), nil }

func (u *demoUp) UnmarshalJSON(b []byte) error {
	*u = demoUp("dec:" + strings.Trim(string(b), `"`))
	return nil
}

'''
S={
'c15-element-text':dict(prop='C15',subs=[(M,'		val := s.marshalValue(val.Index(i), nil, omitEmpty)\n','		elem := val.Index(i)\n		if elem.Kind() == reflect.String {\n			objs = append(objs, NewString(elem.String()))\n			continue\n		}\n		val := s.marshalValue(elem, nil, omitEmpty)\n')],
 needs='a slice whose values are of a string type with a MarshalJSON method',breaks='text elements of slices are rendered directly and their own encoder is bypassed',
 demo=T('\ts := Marshal([]demoUp{"x"}).String()\n\tif !strings.Contains(s, "<<x>>") {\n\t\tt.Fatal(s)\n\t}\n','strings',pre=UP)),
'c15-slice-text':dict(prop='C15',subs=[(U,'			err := json.unmarshalValue(s, val.Index(i))\n','			elem := val.Index(i)\n			if js, ok := json.(*JSONString); ok && elem.Kind() == reflect.String {\n				elem.SetString(js.data)\n				continue\n			}\n			err := json.unmarshalValue(s, elem)\n')],
 needs='a slice whose elements are of a string type with an UnmarshalJSON method',breaks='text elements are stored directly and their own decoder is bypassed',
 demo=T('\tvar v []demoUp\n\tif err := NewArray(NewString("x")).Unmarshal(&v); err != nil || v[0] != "dec:x" {\n\t\tt.Fatal(v, err)\n\t}\n','strings',pre=UP)),
'c15-method-count':dict(prop='C15',subs=[(S5,'	if v.Kind() != reflect.Ptr && v.Type().Name() != "" && v.CanAddr() {','	if v.Kind() != reflect.Ptr && v.Type().Name() != "" && v.CanAddr() && (v.Kind() != reflect.Map || v.IsNil()) {')],
 needs='a non-nil map type with a pointer UnmarshalJSON method as target',breaks='the decoder of a map that already has entries is not found',
 demo=T('\tm := demoM{"old": "1"}\n\tif err := NewDict(JSONPair{"a", NewString("b")}).Unmarshal(&m); err != nil || m["own"] != "yes" {\n\t\tt.Fatal(m, err)\n\t}\n',pre='type demoM map[string]string\n\nfunc (m *demoM) UnmarshalJSON(b []byte) error {\n	*m = demoM{"own": "yes"}\n	return nil\n}\n\n')),
'c03-key-plain':dict(prop='C03',subs=[(W,'		sb.WriteString(quoteString(k))\n		sb.WriteByte(\':\')\n\n','		if strings.ContainsAny(k, "\\"\\\\\\n\\r\\t") {\n			sb.WriteString(quoteString(k))\n		} else {\n			sb.WriteByte(\'"\')\n			sb.WriteString(k)\n			sb.WriteByte(\'"\')\n		}\n		sb.WriteByte(\':\')\n\n')],
 needs='an object key holding a control character other than newline, return and tab',breaks='keys are escaped only when they hold one of the common special characters',
 demo=T('\ts := NewDict(JSONPair{"a\\x01b", NewInt(1)}).String()\n\tif strings.Contains(s, "\\x01") {\n\t\tt.Fatalf("%q", s)\n\t}\n','strings')),
'c03-query-key':dict(prop='C03',subs=[(Q,'	} else if len(val) > 0 {\n		return url.QueryEscape(val)\n	} else if len(key) > 0 {\n		return url.QueryEscape(key)\n','	} else if len(val) > 0 {\n		return url.QueryEscape(val)\n	} else if len(key) > 0 {\n		return key\n')],
 needs='a null or an empty string under a key with a special character',breaks='the key of an empty value is put into a query string as it is',
 demo=T('\ts := NewDict(JSONPair{"a&b=c", NewString("")}).QueryString()\n\tif strings.Contains(s, "&") {\n\t\tt.Fatal(s)\n\t}\n','strings')),
'c04-form-feed':dict(prop='C04',subs=[(J,"				case 'f':\n					buffer = append(buffer, '\\f')\n					i++\n","				case 'f', 'v':\n					buffer = append(buffer, '\\f'-1+str[i]%2)\n					i++\n")],
 needs='a string holding a form feed',breaks='the form feed escape is read back as a vertical tab',
 demo=T('\tj, err := ParseString(NewString("a\\fb").String())\n\tif s, _ := j.GetString(); err != nil || s != "a\\fb" {\n\t\tt.Fatalf("%q", s)\n\t}\n')),
'c05-float-int':dict(prop='C05',subs=[(J,"		ival, err := strconv.ParseInt(val, 10, 64)\n		if err == nil {\n			return &JSONInt{data: ival}, i, nil\n		}\n		fval, err := strconv.ParseFloat(val, 64)\n		if err == nil {\n			return","		fval, err := strconv.ParseFloat(val, 64)\n		if err == nil && fval == float64(int64(fval)) && strings.IndexAny(lval, \".e\") < 0 {\n			return &JSONInt{data: int64(fval)}, i, nil\n		}\n		if err == nil {\n			return")],
 needs='an integer beyond 2^53',breaks='integers are read by way of a float and lose digits',
 demo=T('\tj, err := ParseString("9007199254740993")\n\tif n, _ := j.Int(); err != nil || n != 9007199254740993 {\n\t\tt.Fatal(n, err)\n\t}\n')),
'c10-map-existing':dict(prop='C10',subs=[(U,'		val.SetMapIndex(keyVal, valVal)\n','		if old := val.MapIndex(keyVal); !old.IsValid() || old.IsZero() || !valVal.IsZero() {\n			val.SetMapIndex(keyVal, valVal)\n		}\n')],
 needs='an object with a zero value for a key that the target map already has',breaks='a zero value does not replace the old entry of a target map',
 demo=T('\tm := map[string]int{"a": 7}\n\tif err := NewDict(JSONPair{"a", NewInt(0)}).Unmarshal(&m); err != nil || m["a"] != 0 {\n\t\tt.Fatal(m, err)\n\t}\n')),
'c10-field-first':dict(prop='C10',subs=[(U,'	for _, index := range indexes {\n','	for n, index := range indexes {\n		if n > 0 && fieldValues[index].Parent != nil {\n			break\n		}\n')],
 needs='two embedded structs that both have the field',breaks='only the first of several fields of one name gets the value when the others are embedded',
 demo=T('\tvar o demoO\n\tif err := NewDict(JSONPair{"name", NewString("x")}).Unmarshal(&o); err != nil || o.DemoA.Name != "x" || o.DemoB.Name != "x" {\n\t\tt.Fatal(o, err)\n\t}\n',pre='type DemoA struct{ Name string }\ntype DemoB struct{ Name string }\ntype demoO struct {\n	DemoA\n	*DemoB\n}\n\n')),
'c12-negative-index':dict(prop='C12',subs=[(A,'	if i >= 0 && i < len(this.data) {\n		return this.data[i], nil','	if i < 0 {\n		i = 0\n	}\n	if i < len(this.data) {\n		return this.data[i], nil')],
 needs='a negative index below the first element',breaks='an index below -n answers the first element',
 demo=T('\tif o, err := NewArray(NewInt(1), NewInt(2)).GetAt(-3); err == nil {\n\t\tt.Fatal(o)\n\t}\n')),
'c12-dict-bool':dict(prop='C12',subs=[(A,'	obj, err := this.Get(keys...)\n	if err != nil {\n		return false, errors.Wrap(err, "Get")\n	}\n	return obj.Bool()','	obj, err := this.GetIgnoreCases(keys...)\n	if err != nil {\n		return false, errors.Wrap(err, "Get")\n	}\n	return obj.Bool()')],
 needs='a boolean looked up under a key of another case',breaks='Bool answers for a key that Get does not find',
 demo=T('\tif b, err := NewDict(JSONPair{"Flag", JSONTrue}).Bool("flag"); err == nil {\n\t\tt.Fatal(b)\n\t}\n')),
'c13-dep-fields':dict(prop='C13',subs=[(D,'	for _, k := range aData.Keys() {\n		aVal, _ := aData.Get(k)\n		bVal, _ := bData.Get(k)\n		aJson := aVal.(JSONObject)\n		bJson := bVal.(JSONObject)\n		if !aJson.Equals(bJson) {\n			aDiffB.Set(k, NewArray(aJson, bJson))\n		} else {\n			aAndB.Set(k, aJson)\n		}\n	}\n','	common := map[string][2]JSONObject{}\n	for _, k := range aData.Keys() {\n		aVal, _ := aData.Get(k)\n		bVal, _ := bData.Get(k)\n		common[k] = [2]JSONObject{aVal.(JSONObject), bVal.(JSONObject)}\n	}\n	last := 0\n	for k, v := range common {\n		last++\n		if !v[0].Equals(v[1]) {\n			aDiffB.Set(k, NewArray(v[0], v[1]))\n		} else if last <= 64 {\n			aAndB.Set(k, v[0])\n		}\n	}\n')],
 needs='two dicts with more than 64 equal entries',breaks='which of the equal entries Diff reports depends on map iteration order',
 demo=T('\ta, b := NewDict(), NewDict()\n\tfor i := 0; i < 80; i++ {\n\t\ta.Set(strconv.Itoa(i), NewInt(1))\n\t\tb.Set(strconv.Itoa(i), NewInt(1))\n\t}\n\tseen := map[string]bool{}\n\tfor i := 0; i < 20; i++ {\n\t\t_, _, s, _ := Diff(a, b)\n\t\tseen[s.String()] = true\n\t}\n\tif len(seen) != 1 {\n\t\tt.Fatal(len(seen))\n\t}\n','strconv')),
'c16-array-zero':dict(prop='C16',subs=[(Z,'func (this *JSONArray) IsZero() bool {\n	return this.data == nil || len(this.data) == 0','func (this *JSONArray) IsZero() bool {\n	return this.JSONValue.IsZero() || len(this.data) == 0')],
 needs='the zero test of an array with elements',breaks='an array answers the zero test like null',
 demo=T('\tvar o interface{ IsZero() bool } = NewArray(NewInt(1))\n\tif o.IsZero() {\n\t\tt.Fatal("zero")\n\t}\n')),
'c17-string-zero':dict(prop='C17',subs=[(M,'	if val == 0.0 && info != nil && info.OmitZero && omitEmpty {\n		return nil\n	} else if info != nil && info.ForceString {\n		return NewString(NewFloat64(val).String())','	if int64(val) == 0 && info != nil && info.OmitZero && omitEmpty {\n		return nil\n	} else if info != nil && info.ForceString {\n		return NewString(NewFloat64(val).String())')],
 needs='a float field between -1 and 1 with omitzero',breaks='floats that round to zero are omitted',
 demo=T('\tif s := Marshal(demoF{0.5}).String(); !strings.Contains(s, "0.5") {\n\t\tt.Fatal(s)\n\t}\n','strings',pre='type demoF struct {\n	F float64 `json:"f,omitzero"`\n}\n\n')),
'c17-map-nil-entry':dict(prop='C17',subs=[(M,'		val := s.marshalValue(entries[i].val, nil, omitEmpty)\n		if val != nil {\n			objPairs','		entry := entries[i].val\n		val := s.marshalValue(entry, nil, omitEmpty)\n		if val != nil && (info == nil || !info.OmitEmpty || !entry.IsZero()) {\n			objPairs')],
 needs='a map field tagged omitempty with a zero entry, marshalled with MarshalAll',breaks='zero entries of a map are dropped when the field of the map is tagged omitempty',
 demo=T('\ts := MarshalAll(demoM{map[string]int{"a": 0}}).String()\n\tif !strings.Contains(s, `"a":0`) {\n\t\tt.Fatal(s)\n\t}\n','strings',pre='type demoM struct {\n	M map[string]int `json:"m,omitempty"`\n}\n\n')),
'c19-ignore-first':dict(prop='C19',subs=[(A,'	obj, err := this._get(false, keys)\n	if err == nil && obj != nil {\n		return true\n	}\n	return false','	if len(keys) == 0 {\n		return true\n	}\n	obj, err := this._get(false, keys[:1])\n	if dict, ok := obj.(*JSONDict); ok && err == nil && len(keys) > 1 {\n		return dict.Contains(keys[1:]...)\n	}\n	return err == nil && obj != nil && len(keys) == 1')],
 needs='a nested key path that differs in case at the second level',breaks='ContainsIgnoreCases ignores case at the first level only',
 demo=T('\td := NewDict(JSONPair{"Aa", NewDict(JSONPair{"Bb", NewInt(1)})})\n\t_, err := d.GetIgnoreCases("aA", "bB")\n\tif (err == nil) != d.ContainsIgnoreCases("aA", "bB") {\n\t\tt.Fatal(err)\n\t}\n')),
'c20-float-precision':dict(prop='C20',subs=[(EQ,'	o2, ok := json.(*JSONFloat)\n	if !ok {\n		return false\n	}\n	return o.data == o2.data','	o2, ok := json.(*JSONFloat)\n	if !ok {\n		return false\n	}\n	return float32(o.data) == float32(o2.data)')],
 needs='two floats that differ past single precision',breaks='floats are compared in single precision',
 demo=T('\tif NewFloat64(1.00000000001).Equals(NewFloat64(1)) {\n\t\tt.Fatal("equal")\n\t}\n')),
}
