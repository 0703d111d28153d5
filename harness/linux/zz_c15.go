package notify

import "golang.org/x/sys/unix"

func vzNames() []vzEvName {
	return []vzEvName{
		{"notify.Create", Create, 0}, {"notify.Remove", Remove, 0}, {"notify.Write", Write, 0}, {"notify.Rename", Rename, 0},
		{"notify.InAccess", InAccess, unix.IN_ACCESS},
		{"notify.InModify", InModify, unix.IN_MODIFY},
		{"notify.InAttrib", InAttrib, unix.IN_ATTRIB},
		{"notify.InCloseWrite", InCloseWrite, unix.IN_CLOSE_WRITE},
		{"notify.InCloseNowrite", InCloseNowrite, unix.IN_CLOSE_NOWRITE},
		{"notify.InOpen", InOpen, unix.IN_OPEN},
		{"notify.InMovedFrom", InMovedFrom, unix.IN_MOVED_FROM},
		{"notify.InMovedTo", InMovedTo, unix.IN_MOVED_TO},
		{"notify.InCreate", InCreate, unix.IN_CREATE},
		{"notify.InDelete", InDelete, unix.IN_DELETE},
		{"notify.InDeleteSelf", InDeleteSelf, unix.IN_DELETE_SELF},
		{"notify.InMoveSelf", InMoveSelf, unix.IN_MOVE_SELF},
	}
}

func vzMarkers() []Event   { return []Event{recursive, omit} }
func vzPlain(e Event) bool { return true }
