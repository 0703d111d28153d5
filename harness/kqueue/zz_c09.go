package notify

var _ = vzFor("C09", func(thorough bool) []vzScn {
	return vzRaces("C12", thorough, "lib/", "conc/", "close/", "list/", "overlap/")
})
