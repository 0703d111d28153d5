package notify

func vzNames() []vzEvName {
	return []vzEvName{
		{"notify.Create", Create, 0}, {"notify.Remove", Remove, 0}, {"notify.Write", Write, 0}, {"notify.Rename", Rename, 0},
	}
}

func vzMarkers() []Event   { return []Event{recursive, omit} }
func vzPlain(e Event) bool { return true }
