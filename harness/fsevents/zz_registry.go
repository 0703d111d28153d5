package notify

// Callbacks of streams that are not used any longer must not be kept. This
// file is left out if the registry has another shape.
func init() {
	vzKept = func() int { return len(streamFuncs.m) }
}
