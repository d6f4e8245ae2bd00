import runpy,os
T=runpy.run_path(os.path.join(os.path.dirname(__file__),'a.py'))['T']
A='access.go'; D='dict.go'; CL='clone.go'; ST='string.go'; V='values.go'; I='interface.go'; U='unmarshal.go'; E='equals.go'; W='write.go'; J='jsonutils.go'; Q='querystring.go'; SS='stringsegment.go'
S={
'c06-updatedefault-other':dict(prop='C06',subs=[(D,'	dict.data = sortedmap.Merge(dict2.data, dict.data)','	for _, k := range dict.SortedKeys() {\n		v, _ := dict.Get(k)\n		if sub, ok := v.(*JSONDict); ok {\n			if d, err := dict2.Get(k); err == nil {\n				if ds, ok := d.(*JSONDict); ok {\n					ds.Update(sub)\n				}\n			}\n		}\n	}\n	merged := sortedmap.Merge(dict2.data, dict.data)\n	dict.data = merged')],
 needs='defaults and receiver that both have a dict under the same key',breaks='UpdateDefault merges the receiver into the nested dicts of the defaults it was given',
 demo=T('\tdef := NewDict()\n\tdef.Add(NewInt(1), "a", "x")\n\td := NewDict()\n\td.Add(NewInt(2), "a", "y")\n\td.UpdateDefault(def)\n\tif s := def.String(); s != `{"a":{"x":1}}` {\n\t\tt.Fatal(s)\n\t}\n')),
'c06-array-string-cache':dict(prop='C06',subs=[(J,'type JSONArray struct {\n	JSONValue\n','type JSONArray struct {\n	JSONValue\n	text string\n'),(ST,'func (this *JSONArray) String() string {\n	sb := &strings.Builder{}\n	this.buildString(sb)\n	return sb.String()','func (this *JSONArray) String() string {\n	if len(this.data) > 0 {\n		if this.text == "" {\n			sb := &strings.Builder{}\n			this.buildString(sb)\n			this.text = sb.String()\n		}\n		return this.text\n	}\n	return "[]"')],
 needs='an array rendered, then an element or the array itself changed, then rendered again (or two goroutines rendering at once)',breaks='String stores its text in the node it reads',
 demo=T('\ta := NewArray(NewInt(1))\n\t_ = a.String()\n\ta.Add(NewInt(2))\n\tif s := a.String(); s != "[1,2]" {\n\t\tt.Fatal(s)\n\t}\n')),
'c07-update-scalar':dict(prop='C07',subs=[(A,'	this.data = sortedmap.Add(this.data, key, value)\n','	if n, ok := value.(*JSONInt); ok {\n		if old, err := this.Get(key); err == nil {\n			if oi, ok := old.(*JSONInt); ok {\n				oi.data = n.data\n				return\n			}\n		}\n	}\n	data := sortedmap.Add(this.data, key, value)\n	this.data = data\n')],
 needs='a copy of a dict, then an integer of either replaced by Set',breaks='Set writes the new value into the integer node in place, which the copy shares',
 demo=T('\td := NewDict()\n\td.Set("a", NewInt(1))\n\tc := d.Copy()\n\td.Set("a", NewInt(2))\n\tif v, _ := c.Int("a"); v != 1 {\n\t\tt.Fatal(v)\n\t}\n')),
'c07-float-memo':dict(prop='C07',subs=[(A,'func NewFloat64(val float64) *JSONFloat {\n	return &JSONFloat{data: val, bit: 64}\n','var lastFloat = &JSONFloat{bit: 64}\n\nfunc NewFloat64(val float64) *JSONFloat {\n	if val == 0 {\n		return lastFloat\n	}\n	if val == lastFloat.data {\n		return lastFloat\n	}\n	if val == 1 {\n		lastFloat.data = val\n		return lastFloat\n	}\n	f := &JSONFloat{data: val, bit: 64}\n	return f\n')],
 needs='NewFloat64(0) kept while NewFloat64(1) is made',breaks='a float node made earlier changes its value when another one is made',
 demo=T('\ta := NewFloat64(0)\n\tNewFloat64(1)\n\tif v, _ := a.Float(); v != 0 {\n\t\tt.Fatal(v)\n\t}\n')),
'c08-update-empty':dict(prop='C08',subs=[(D,'	dict.data = sortedmap.Merge(dict.data, dict2.data)','	if len(dict.data) == 0 {\n		dict.data = dict2.data\n	} else {\n		dict.data = sortedmap.Merge(dict.data, dict2.data)\n	}')],
 needs='Update of an empty dict, then an existing key of either one set',breaks='the two dicts share their storage afterwards',
 demo=T('\ta, b := NewDict(), NewDict()\n\tb.Set("k", NewInt(1))\n\ta.Update(b)\n\tb.Set("k", NewInt(2))\n\tif v, _ := a.Int("k"); v != 1 {\n\t\tt.Fatal(v)\n\t}\n')),
'c08-getarray-view':dict(prop='C08',subs=[(A,'	ret := make([]JSONObject, len(this.data))\n	for i := range this.data {\n		ret[i] = this.data[i]\n	}\n	return ret, nil','	return this.data[:len(this.data):len(this.data)], nil')],
 needs='an element of the slice that GetArray returned overwritten (appending to it is harmless)',breaks='GetArray returns a view of the array node instead of a copy',
 demo=T('\ta := NewArray(NewInt(1))\n\tl, _ := a.GetArray()\n\tl[0] = NewInt(2)\n\tif s := a.String(); s != "[1]" {\n\t\tt.Fatal(s)\n\t}\n')),
}
