P='package jsonutils\n\nimport (\n\t"testing"\n%s)\n\n'
def T(body,*imps,pre=''):
    return P%''.join('\t"%s"\n'%i for i in imps)+pre+'func TestDemo(t *testing.T) {\n'+body+'}\n'
J='jsonutils.go'; U='unmarshal.go'
S={
'c01-hex-escape':dict(prop='C01',subs=[(J,"					if i+2 >= len(str) {\n						return \"\", i, NewJSONError(str, i, \"Incomplete hex\")\n					}\n					b, e := hexstr2byte(str[i : i+2])","					if i >= len(str) {\n						return \"\", i, NewJSONError(str, i, \"Incomplete hex\")\n					}\n					b, e := hexstr2byte(str[i : i+2])")],
 needs='a string that ends one digit after \\x',breaks='the digits of a cut hex escape are read past the end of the input',
 demo=T('\tb := []byte("\\"abc\\\\x4")\n\tParse(b[:len(b):len(b)])\n')),
'c02-dict-garbage':dict(prop='C02',subs=[(J,"		if str[i] == '}' {\n			stop = true\n			i++\n			continue\n		}\n		key, _, i, e = parseString(str, i)","		if str[i] == '}' || str[i] == ',' && i > offset+1 {\n			stop = str[i] == '}'\n			if stop {\n				i++\n			}\n			continue\n		}\n		key, _, i, e = parseString(str, i)")],
 needs='an object with two commas in a row, or a trailing comma followed by a comma',breaks='the loop over the members of an object makes no progress on an empty member and never ends',
 demo=T('\tdone := make(chan bool)\n\tgo func() { ParseString("{a:1,,b:2}"); close(done) }()\n\tselect {\n\tcase <-done:\n\tcase <-time.After(5 * time.Second):\n\t\tt.Fatal("does not end")\n\t}\n','time')),
'c02-stream-offset':dict(prop='C02',subs=[(J,"		case '[':\n			val = &JSONArray{}\n			i, e = val.parse(s, str, i)\n		case '{':\n			val = &JSONDict{}\n			i, e = val.parse(s, str, i)\n		default:\n			val, i, e = s.parseJSONValue(str, i)\n		}\n		if e != nil {\n			return smap","		case '[':\n			val = &JSONArray{}\n			i, e = val.parse(newJsonParseSession(), str, i)\n		case '{':\n			val = &JSONDict{}\n			i, e = val.parse(s, str, i)\n		default:\n			val, i, e = s.parseJSONValue(str, i)\n		}\n		if e != nil {\n			return smap")],
 needs='arrays nested inside objects, alternating, several hundred thousand levels deep',breaks='each array inside an object starts a new depth count, so the nesting limit never applies and the stack overflows',
 demo=T('\t_, err := ParseString(strings.Repeat("{a:[", 200000) + strings.Repeat("]}", 200000))\n\tif err == nil {\n\t\tt.Fatal("nesting is not limited")\n\t}\n','strings')),
'c09-float-into-uintptr':dict(prop='C09',subs=[(U,"	case reflect.Float32, reflect.Float64:\n		val.SetFloat(this.data)\n	case reflect.Bool:","	case reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:\n		val.SetFloat(this.data)\n	case reflect.Bool:")],
 needs='a float unmarshalled into a complex number',breaks='reflect.Value.SetFloat is applied to a complex target and panics',
 demo=T('\tvar c complex128\n\tif NewFloat64(1.5).Unmarshal(&c) == nil {\n\t\tt.Fatal("no error")\n\t}\n')),
'c09-short-slice':dict(prop='C09',subs=[(U,"			} else if val.Len() != dataLen {\n				val.SetLen(dataLen)\n			}\n		}\n","			} else if val.Len() > dataLen {\n				val.SetLen(dataLen)\n			}\n		}\n")],
 needs='an array unmarshalled into a slice that is shorter than the array but has enough capacity',breaks='elements past the length of the target slice are indexed and reflect panics',
 demo=T('\tv := make([]int, 1, 8)\n\tif err := NewArray(NewInt(1), NewInt(2), NewInt(3)).Unmarshal(&v); err != nil || len(v) != 3 {\n\t\tt.Fatal(v, err)\n\t}\n')),
}
