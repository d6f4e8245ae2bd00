import runpy,os
T=runpy.run_path(os.path.join(os.path.dirname(__file__),'a.py'))['T']
P='jsonpointer.go'; TR='json_pointer_trace.go'; MA='marshal.go'; W='write.go'; J='jsonutils.go'
LOOP='''type demoNode struct {
	Name string
	Next *demoNode
	Kids []*demoNode
}

func demoSafe(t *testing.T, o interface{}) (s string) {
	debug.SetMaxStack(64 << 20)
	s = Marshal(o).String()
	return
}

'''
S={
'c14-find-last':dict(prop='C14',subs=[(TR,'	for i := range t.trace {\n		if t.trace[i].inf == inf {\n			ret = t.trace[i]\n		}','	start := 0\n	if n := len(t.trace); n > 8 {\n		// long chains are lists rather than cycles through the root\n		start = n - 8\n	}\n	for i := start; i < len(t.trace); i++ {\n		if t.trace[i].inf == inf {\n			ret = t.trace[i]\n		}')],
 needs='a cycle of more than eight pointers',breaks='the search looks at the last eight pointers only, so a longer cycle is followed until the stack overflows',
 demo=T('\tnodes := make([]demoNode, 12)\n\tfor i := range nodes {\n\t\tnodes[i].Name = "n"\n\t\tnodes[i].Next = &nodes[(i+1)%len(nodes)]\n\t}\n\ts := demoSafe(t, &nodes[0])\n\tif !strings.Contains(s, "<1>") {\n\t\tt.Fatal(s)\n\t}\n','runtime/debug','strings',pre=LOOP)),
'c14-refcnt-root':dict(prop='C14',subs=[(TR,'		if ret != nil {\n			t.trace[i].refcnt++\n		}','		if ret != nil && (i > 0 || len(t.trace) == 1) {\n			t.trace[i].refcnt++\n		}')],
 needs='a cycle back to the marshalled pointer itself through another pointer',breaks='the object the reference points to gets no id',
 demo=T('\ta := &demoNode{Name: "a"}\n\tb := &demoNode{Name: "b", Next: a}\n\ta.Next = b\n\ts := demoSafe(t, a)\n\tif strings.Contains(s, "<") && !strings.Contains(s, "___jnid_") {\n\t\tt.Fatal(s)\n\t}\n\tif !strings.HasPrefix(s, `{"___jnid_":1`) {\n\t\tt.Fatal(s)\n\t}\n','runtime/debug','strings',pre=LOOP)),
'c14-single-field':dict(prop='C14',subs=[(W,'	if this.nodeId > 0 {','	if this.nodeId > 0 && len(this.data) > 1 {')],
 needs='a cycle through an object with a single field',breaks='an object with one field that a reference points to is rendered without its id',
 demo=T('\ta := &demoNode{}\n\ta.Next = a\n\ts := Marshal(a).String()\n\tif !strings.Contains(s, "___jnid_") {\n\t\tt.Fatal(s)\n\t}\n','strings',pre=LOOP[:LOOP.index('func')].replace('	Name string\n',''))),
}
