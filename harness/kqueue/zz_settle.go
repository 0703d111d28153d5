package notify

import (
	"strings"

	"vmc/kern"
	"vmc/vs"
)

// Changes at whatever moment of handling the ones before them: afterwards
// everything that is there is watched, and has been reported.
var _ = vzFor("C12", func(thorough bool) (out []vzScn) {
	fx := vzTree("/d/", "/d/a", "/o/", "/o/y")
	allev := Create | Remove | Write | Rename
	lv := vzPe(0, 1, 2, 3, 4)
	if thorough {
		lv = vzPe(0, 1, 2, 3, 4, 6)
	}
	for _, seq := range [][]vzFsOp{
		{vzFcreate("/d/n"), vzFrm("/d/n"), vzFcreate("/d/n")},
		{vzFrm("/d/a"), vzFcreate("/d/a")},
		{vzFcreate("/d/n"), vzFmv("/d/n", "/d/a")},
		{vzFmv("/d/a", "/d/b"), vzFcreate("/d/a")},
		{vzFmv("/d/a", "/o/a"), vzFmv("/o/a", "/d/a")},
		{vzFmkdir("/d/k"), vzFrm("/d/k"), vzFcreate("/d/k")},
		{vzFmv("/o/y", "/d/a"), vzFcreate("/d/n")},
	} {
		seq := seq
		var names []string
		for _, o := range seq {
			names = append(names, o.name)
		}
		out = append(out, vzScn{name: "settle/" + strings.Join(names, ", "), bounds: lv, kern: fx, body: func() {
			vs.Calm(true)
			x := vzNewKq()
			x.op(vzKop{"Watch(/d)", "Watch", "/d", allev})
			vs.Calm(false)
			there := map[string]bool{}
			x.note("at any moments: %s", strings.Join(names, ", "))
			vs.Thread("fs", func() {
				for _, o := range seq {
					for _, c := range o.do(x.k) {
						switch c.kind {
						case "create":
							there[c.p] = true
						case "remove", "rename", "over":
							delete(there, c.p)
						}
					}
				}
			})
			vs.Quiesce()
			vs.CheckIdle()
			vs.Calm(true)
			got := map[string]bool{}
			for _, ei := range vs.Drain(x.c) {
				if ei.Event() == Create {
					got[ei.Path()] = true
				}
			}
			for p := range there {
				if !got[p] {
					x.fail("the creation of %s was not reported", p)
				}
			}
			x.descriptors()
			vs.CountState()
			vzPaths(x.k, func(p string, i *kern.Inode) {
				if strings.HasPrefix(p, "/d/") && i.Kind == kern.File {
					x.fs(vzFwrite(p))
				}
			})
			x.fs(vzFcreate("/d/z"))
			x.fs(vzFrm("/d/z"))
			x.close()
		}})
		users := map[string][]vzKop{
			"grow":    {{"Watch(/d)", "Watch", "/d", Create | Write}, {"Rewatch(/d)", "Rewatch", "/d", allev}},
			"shrink":  {{"Watch(/d)", "Watch", "/d", allev}, {"Rewatch(/d)", "Rewatch", "/d", Create | Write}},
			"again":   {{"Watch(/d)", "Watch", "/d", allev}, {"Unwatch(/d)", "Unwatch", "/d", 0}, {"Watch(/d)", "Watch", "/d", Write}},
			"another": {{"Watch(/d)", "Watch", "/d", allev}, {"Watch(/o)", "Watch", "/o", Remove}},
			"other":   {{"Watch(/o)", "Watch", "/o", Create | Rename}, {"Watch(/d)", "Watch", "/d", allev}, {"Unwatch(/o)", "Unwatch", "/o", 0}},
		}
		for _, u := range []string{"grow", "shrink", "again", "another", "other"} {
			u := u
			out = append(out, vzScn{name: "settle-" + u + "/" + strings.Join(names, ", "), bounds: lv[:len(lv)-2], kern: fx, body: func() {
				vs.Calm(true)
				x := vzNewKq()
				ops := users[u]
				x.op(ops[0])
				vs.Calm(false)
				x.note("at any moments: %s", strings.Join(names, ", "))
				for _, o := range ops[1:] {
					x.note("and: %s %v", o.name, o.set)
				}
				vs.Thread("fs", func() {
					for _, o := range seq {
						o.do(x.k)
					}
				})
				vs.Thread("user", func() {
					for _, o := range ops[1:] {
						var err error
						switch o.kind {
						case "Watch":
							err = x.w.Watch(o.p, o.set)
							x.reg[o.p] = o.set
						case "Rewatch":
							err = x.w.Rewatch(o.p, x.reg[o.p], o.set)
							x.reg[o.p] = o.set
						case "Unwatch":
							err = x.w.Unwatch(o.p)
							delete(x.reg, o.p)
						}
						if err != nil {
							x.fail("%s: %v", o.name, err)
						}
					}
				})
				vs.Quiesce()
				vs.CheckIdle()
				vs.Calm(true)
				vs.Drain(x.c)
				x.descriptors()
				vs.CountState()
				vzPaths(x.k, func(p string, i *kern.Inode) {
					if strings.HasPrefix(p, "/d/") && i.Kind == kern.File {
						x.fs(vzFwrite(p))
					}
				})
				x.fs(vzFcreate("/d/z"))
				x.fs(vzFrm("/d/z"))
				x.close()
			}})
		}
	}
	return
})

// A file is replaced while it is given up and watched again: the watch made
// last stays, whatever there was to handle of the one before.
var _ = vzFor("C12", func(thorough bool) (out []vzScn) {
	for _, seq := range [][]vzFsOp{
		{vzFmv("/d/a", "/o/y")},
		{vzFwrite("/o/y"), vzFmv("/d/a", "/o/y")},
		{vzFrm("/o/y"), vzFcreate("/o/y")},
		{vzFwrite("/o/y")},
	} {
		for _, twice := range []bool{false, true} {
			seq, twice := seq, twice
			var names []string
			for _, o := range seq {
				names = append(names, o.name)
			}
			name := "settle-file/" + strings.Join(names, ", ")
			if twice {
				name += ", twice"
			}
			if len(names) > 1 || names[0] == "mv /d/a /o/y" {
				// The event of the file that is gone may have been retrieved
				// when its descriptor is closed, and used for the new one.
				if name = "known/" + name; name != "known/settle-file/rm /o/y, create /o/y" {
					continue
				}
			}
			out = append(out, vzScn{name: name, bounds: vzPe(0, 1, 2, 3, 4), kern: vzTree("/d/", "/d/a", "/o/", "/o/y"), body: func() {
				vs.Calm(true)
				x := vzNewKq()
				x.op(vzKop{"Watch(/o/y)", "Watch", "/o/y", Remove | Write})
				vs.Calm(false)
				x.note("then %s, Unwatch and Watch", strings.Join(names, ", "))
				for _, o := range seq {
					o.do(x.k)
				}
				for i := 0; i < 1 || twice && i < 2; i++ {
					x.w.Unwatch("/o/y")
					if err := x.w.Watch("/o/y", Write); err != nil {
						x.fail("Watch(/o/y): %v", err)
					}
				}
				x.reg["/o/y"] = Write
				vs.Quiesce()
				vs.CheckIdle()
				vs.Calm(true)
				vs.Drain(x.c)
				x.descriptors()
				vs.CountState()
				x.fs(vzFwrite("/o/y"))
				x.descriptors()
				x.close()
			}})
		}
	}
	return
})
