package notify

func vzNames() []vzEvName {
	return []vzEvName{
		{"notify.Create", Create, 0}, {"notify.Remove", Remove, 0}, {"notify.Write", Write, 0}, {"notify.Rename", Rename, 0},
		{"notify.FileNotifyChangeFileName", FileNotifyChangeFileName, 0x1},
		{"notify.FileNotifyChangeDirName", FileNotifyChangeDirName, 0x2},
		{"notify.FileNotifyChangeAttributes", FileNotifyChangeAttributes, 0x4},
		{"notify.FileNotifyChangeSize", FileNotifyChangeSize, 0x8},
		{"notify.FileNotifyChangeLastWrite", FileNotifyChangeLastWrite, 0x10},
		{"notify.FileNotifyChangeLastAccess", FileNotifyChangeLastAccess, 0x20},
		{"notify.FileNotifyChangeCreation", FileNotifyChangeCreation, 0x40},
		{"notify.FileNotifyChangeSecurity", FileNotifyChangeSecurity, 0x100},
		{"notify.FileActionAdded", FileActionAdded, 0},
		{"notify.FileActionRemoved", FileActionRemoved, 0},
		{"notify.FileActionModified", FileActionModified, 0},
		{"notify.FileActionRenamedOldName", FileActionRenamedOldName, 0},
		{"notify.FileActionRenamedNewName", FileActionRenamedNewName, 0},
	}
}

func vzMarkers() []Event   { return []Event{recursive, omit, dirmarker} }
func vzPlain(e Event) bool { return true }
