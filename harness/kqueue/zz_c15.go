package notify

func vzNames() []vzEvName {
	return []vzEvName{
		{"notify.Create", Create, 0}, {"notify.Remove", Remove, 0}, {"notify.Write", Write, 0}, {"notify.Rename", Rename, 0},
		{"notify.NoteDelete", NoteDelete, 0x1},
		{"notify.NoteWrite", NoteWrite, 0x2},
		{"notify.NoteExtend", NoteExtend, 0x4},
		{"notify.NoteAttrib", NoteAttrib, 0x8},
		{"notify.NoteLink", NoteLink, 0x10},
		{"notify.NoteRename", NoteRename, 0x20},
		{"notify.NoteRevoke", NoteRevoke, 0x40},
	}
}

func vzMarkers() []Event   { return []Event{recursive, omit} }
func vzPlain(e Event) bool { return true }
