package notify

func vzNames() []vzEvName {
	return []vzEvName{
		{"notify.Create", Create, 0}, {"notify.Remove", Remove, 0}, {"notify.Write", Write, 0}, {"notify.Rename", Rename, 0},
		{"notify.FileAccess", FileAccess, 0x1},
		{"notify.FileModified", FileModified, 0x2},
		{"notify.FileAttrib", FileAttrib, 0x4},
		{"notify.FileDelete", FileDelete, 0x10},
		{"notify.FileRenameTo", FileRenameTo, 0x20},
		{"notify.FileRenameFrom", FileRenameFrom, 0x40},
		{"notify.FileTrunc", FileTrunc, 0x100000},
		{"notify.FileNoFollow", FileNoFollow, 0x10000000},
		{"notify.Unmounted", Unmounted, 0x20000000},
		{"notify.MountedOver", MountedOver, 0x40000000},
	}
}

func vzMarkers() []Event   { return []Event{recursive, omit} }
func vzPlain(e Event) bool { return true }
