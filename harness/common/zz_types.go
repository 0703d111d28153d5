package notify

// The parts of the library which are used directly, by what they can do.

type vzTreeI interface {
	Watch(string, chan<- EventInfo, ...Event) error
	Stop(chan<- EventInfo)
	Close() error
}

type vzWatcherI interface {
	Watch(path string, event Event) error
	Unwatch(path string) error
	Rewatch(path string, old, new Event) error
	Close() error
}

type vzRW interface {
	vzWatcherI
	RecursiveWatch(path string, event Event) error
	RecursiveUnwatch(path string) error
	RecursiveRewatch(oldpath, newpath string, oldevent, newevent Event) error
}
