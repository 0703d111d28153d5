package notify

func vzNames() []vzEvName {
	return []vzEvName{
		{"notify.Create", Create, 0x100}, {"notify.Remove", Remove, 0x200}, {"notify.Write", Write, 0x1000}, {"notify.Rename", Rename, 0x800},
		{"notify.FSEventsMustScanSubDirs", FSEventsMustScanSubDirs, 0x1},
		{"notify.FSEventsUserDropped", FSEventsUserDropped, 0x2},
		{"notify.FSEventsKernelDropped", FSEventsKernelDropped, 0x4},
		{"notify.FSEventsEventIdsWrapped", FSEventsEventIdsWrapped, 0x8},
		{"notify.FSEventsHistoryDone", FSEventsHistoryDone, 0x10},
		{"notify.FSEventsRootChanged", FSEventsRootChanged, 0x20},
		{"notify.FSEventsMount", FSEventsMount, 0x40},
		{"notify.FSEventsUnmount", FSEventsUnmount, 0x80},
		{"notify.FSEventsInodeMetaMod", FSEventsInodeMetaMod, 0x400},
		{"notify.FSEventsFinderInfoMod", FSEventsFinderInfoMod, 0x2000},
		{"notify.FSEventsChangeOwner", FSEventsChangeOwner, 0x4000},
		{"notify.FSEventsXattrMod", FSEventsXattrMod, 0x8000},
		{"notify.FSEventsIsFile", FSEventsIsFile, 0x10000},
		{"notify.FSEventsIsDir", FSEventsIsDir, 0x20000},
		{"notify.FSEventsIsSymlink", FSEventsIsSymlink, 0x40000},
	}
}

func vzMarkers() []Event   { return []Event{recursive, omit} }
func vzPlain(e Event) bool { return true }
