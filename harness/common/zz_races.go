package notify

import "strings"

// vzRaces: the scenarios of prop with overlapping calls, with all accesses to
// shared memory checked.
func vzRaces(prop string, thorough bool, prefixes ...string) (out []vzScn) {
	for _, f := range vzProps[prop] {
		for _, s := range f(thorough) {
			for _, p := range prefixes {
				if strings.HasPrefix(s.name, p) && !s.serial {
					s.name, s.race = "race/"+s.name, true
					out = append(out, s)
					break
				}
			}
		}
	}
	return
}
