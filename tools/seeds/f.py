import runpy,os
T=runpy.run_path(os.path.join(os.path.dirname(__file__),'a.py'))['T']
J='jsonutils.go'
APP="		list = append(list, val)\n"
ADD="			smap = sortedmap.Add(smap, key, val)\n"
Q="	} else if quote {\n		return &JSONString{data: val}, i, nil\n"
S={
'c33-first-wins':dict(prop='C33',subs=[(J,ADD,"			if _, dup := smap.Get(key); !dup {\n				smap = sortedmap.Add(smap, key, val)\n			}\n")],
 needs='an object with the same key twice',breaks='the first of two values under one key is kept instead of the last',
 demo=T('\tj, err := ParseString(`{"a":1,"b":2,"a":3}`)\n\tif n, _ := j.Int("a"); err != nil || n != 3 {\n\t\tt.Fatal(n, err)\n\t}\n')),
'c33-trailing-null':dict(prop='C33',subs=[(J,"	if !stop {\n		return list, i, NewJSONError(str, i, \"Truncated\")\n	}\n	return list, i, nil","	if !stop {\n		return list, i, NewJSONError(str, i, \"Truncated\")\n	}\n	n := len(list)\n	if n > 2 && list[n-1] == JSONNull {\n		n--\n	}\n	return list[:n], i, nil")],
 needs='an array of three or more elements whose last one is null',breaks='a null at the end of an array is taken for the empty element after a trailing comma',
 demo=T('\tj, err := ParseString(`[1,2,null]`)\n\tif err != nil || j.(*JSONArray).Length() != 3 {\n\t\tt.Fatal(j, err)\n\t}\n')),
'c33-prev-key':dict(prop='C33',subs=[(J,"		key, _, i, e = parseString(str, i)\n","		name, _, next, err := parseString(str, i)\n		if len(name) > 0 {\n			key = name\n		}\n		i, e = next, err\n")],
 needs='an object with an empty key that is not the first',breaks='a value under an empty key replaces the one of the key before it',
 demo=T('\tj, err := ParseString(`{"a":1,"":2}`)\n\tif n, _ := j.Int("a"); err != nil || n != 1 {\n\t\tt.Fatal(j, err)\n\t}\n')),
'c33-stream-dedup':dict(prop='C33',subs=[(J,"			ret = append(ret, json)\n			offset = noffset\n","			if len(ret) == 0 || !ret[len(ret)-1].Equals(json) {\n				ret = append(ret, json)\n			}\n			offset = noffset\n")],
 needs='a stream with two equal values in a row',breaks='a value of a stream that equals the one before it is left out',
 demo=T('\tr, err := ParseJsonStreams([]byte("{\\"a\\":1}\\n{\\"a\\":1}\\n"))\n\tif err != nil || len(r) != 2 {\n\t\tt.Fatal(len(r), err)\n\t}\n')),
'c33-id-prefix':dict(prop='C33',subs=[(J,"if key == jsonPointerKey {",'if strings.HasPrefix(key, jsonPointerKey) {')],
 needs='an object with a key that begins like the key of node ids',breaks='values under keys that begin with the key of node ids are dropped',
 demo=T('\tj, err := ParseString(`{"`+jsonPointerKey+`x":1,"b":2}`)\n\tif err != nil || j.(*JSONDict).Size() != 2 {\n\t\tt.Fatal(j, err)\n\t}\n')),
'c34-quoted-null':dict(prop='C34',subs=[(J,Q,"	} else if quote && val != \"null\" {\n		return &JSONString{data: val}, i, nil\n")],
 needs='a string that holds the word null',breaks='the text null in quotes is read as null',
 demo=T('\tj, err := ParseString(NewString("null").String())\n\tif _, ok := j.(*JSONString); err != nil || !ok {\n\t\tt.Fatalf("%T", j)\n\t}\n')),
'c34-bare-lower':dict(prop='C34',subs=[(J,"		return &JSONString{data: val}, i, nil\n	}\n}","		return &JSONString{data: lval}, i, nil\n	}\n}")],
 needs='a bare word with capital letters',breaks='bare words lose their capital letters',
 demo=T('\tj, err := ParseString("{a:Hello}")\n\tif s, _ := j.GetString("a"); err != nil || s != "Hello" {\n\t\tt.Fatal(s)\n\t}\n')),
'c34-quoted-ref':dict(prop='C34',subs=[(J,Q,"	} else if quote && (len(val) < 3 || val[0] != '<' || val[len(val)-1] != '>') {\n		return &JSONString{data: val}, i, nil\n")],
 needs='a string in quotes that looks like a reference, such as <b>',breaks='a string in angle brackets is read as a reference although it stands in quotes',
 demo=T('\tj, err := ParseString(`{"a":"<12>"}`)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif s, _ := j.GetString("a"); s != "<12>" {\n\t\tt.Fatal(s)\n\t}\n')),
'c34-int-min':dict(prop='C34',subs=[(J,"		if err == nil {\n			return &JSONInt{data: ival}","		if err == nil && (ival == 0 || ival != -ival) {\n			return &JSONInt{data: ival}")],
 needs='the smallest 64-bit integer',breaks='the smallest integer is read as a float',
 demo=T('\tj, err := ParseString("-9223372036854775808")\n\tif _, ok := j.(*JSONInt); err != nil || !ok {\n\t\tt.Fatalf("%T", j)\n\t}\n')),
'c34-float-null':dict(prop='C34',subs=[(J,'lval == "null" || lval == "none"','lval == "null" || lval == "none" || lval == "nan"')],
 needs='the bare text NaN',breaks='the bare text NaN is read as null',
 demo=T('\tj, err := ParseString("[NaN,Nan]")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tfor _, e := range j.(*JSONArray).data {\n\t\tif e == JSONNull {\n\t\t\tt.Fatal("null")\n\t\t}\n\t}\n')),
'c16-key-trim':dict(prop='C16',subs=[('write.go',"sb.WriteString(quoteString(k))","sb.WriteString(quoteString(strings.TrimSpace(k)))")],
 needs='a key with blanks at its ends',breaks='keys lose the blanks at their ends when they are written',
 demo=T('\td := NewDict()\n\td.Set("a ", NewInt(1))\n\tj, err := ParseString(d.String())\n\tif err != nil || !j.(*JSONDict).Contains("a ") {\n\t\tt.Fatal(d.String(), err)\n\t}\n')),
'c16-qs-wrap':dict(prop='C16',subs=[('querystring.go',"strconv.FormatInt(int64(i), 10)","strconv.FormatInt(int64(uint8(i)), 10)")],
 needs='an array of more than 256 elements',breaks='indices in query strings start again at 0 after 255',
 demo=T('\ta := NewArray()\n\tfor i := 0; i < 300; i++ {\n\t\ta.Add(NewInt(int64(i)))\n\t}\n\tq, err := url.ParseQuery(a.QueryString())\n\tif err != nil || q.Get("260") != "260" {\n\t\tt.Fatal(q, err)\n\t}\n','net/url')),
}
