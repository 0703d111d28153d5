package notify

import (
	"fmt"
	"strings"
)

// Names are bytes: none of them is special.
var vzNameList = []string{
	".hid", "..x", "...x", "x..", "a...", ".git", "a b", " a", "a ", "a\nb", "a\tb", "\x01", "\x7f", "ä", "日本", "\xff\xfe", "a\\b", "*", "?", "[a", "{a,b}", "-", "-rf", "~", "a~", "#a#", "$HOME", "%s", "%!d(",
	"a.b", "a.swp", ".#a", "CON", "node_modules", "lost+found", "vendor", "t", "A", "\"", "'", "|", "a:b", "0", strings.Repeat("n", 15), strings.Repeat("n", 16), strings.Repeat("m", 255), strings.Repeat("é", 127), "a\u0301", "\u00e1", "testdata", "_a", "tmp", ".a.tmp", "a.go", "4913",
}

func vzOddNames(prop string, n int) (out []vzScn) {
	for _, nm := range vzNameList {
		d := "/t/" + nm
		ops := []vzOp{
			vzOpWatch(0, "/t", true, All),
			vzOpWatch(1, "/t", false, Create|Write|Remove|Rename),
			vzOpMkdir("/t/p/" + nm), vzOpMkdir("/t/p/" + nm + "/" + nm), vzOpCreate("/t/p/" + nm), vzOpCreate(d + "/" + nm),
			vzOpRename(d, "/t/p/"+nm), vzOpRename("/t/p", d+"/q"), vzOpRm(d + "/b"), vzOpStop(0),
		}
		if !strings.HasSuffix(nm, "...") {
			ops = append(ops, vzOpWatch(1, d, false, Write|Create|InAttrib), vzOpWatch(1, d+"/f", false, Write))
		}
		ops = append(ops, vzOpWatch(1, d, true, Remove|Create))
		k := n
		q := fmt.Sprintf("%q", nm)
		if len(q) > 40 {
			q = q[:40]
		}
		for _, first := range []int{0, len(ops) - 1} {
			o := append([]vzOp{}, ops...)
			if first > 0 {
				o[first] = vzOpWatch(0, d, true, Remove|Create)
			}
			out = append(out, vzScn{name: fmt.Sprintf("names/%s/%d", q, first), serial: true, bounds: vzPe(0), kern: vzTree("/t/", d+"/", d+"/b/", d+"/f", "/t/p/"),
				body: vzHistory(prop, 2, o, []int{first}, k, (*vzEnv).finalDeep)})
		}
	}
	return
}

func init() {
	for _, prop := range []string{"C01", "C02", "C03", "C04"} {
		prop := prop
		vzFor(prop, func(th bool) []vzScn {
			return vzOddNames(prop, vzMoreIf(th, 2))
		})
	}
}
