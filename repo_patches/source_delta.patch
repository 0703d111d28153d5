From f5a07b12d4d3273e9854b6fe333e40dda6ff7917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 01/58] fix: stop watching a subtree when its last recursive
 channel is stopped

watchDelMin kept the recursive event set of a node when another channel
listened on the node for the same events non-recursively: the watches on all
directories below it were never released.
---
 tree_nonrecursive.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 6e23340..f716ee7 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -136,7 +136,15 @@ func (t *nonrecursiveTree) watchDelMin(min Event, nd node, c chan<- EventInfo, e
 	}
 	diff := nd.Watch.Del(c, e)
 	if ok {
-		switch old &^= diff[0] &^ diff[1]; {
+		// The recursive event set is exactly what is needed by recursive
+		// watchpoints, which are still registered on the node or above it.
+		old = min
+		for ch, set := range nd.Watch {
+			if ch != nil && ch != t.rec && set&recursive != 0 {
+				old |= set | omit
+			}
+		}
+		switch {
 		case old|internal == internal:
 			delete(nd.Watch, t.rec)
 			if set, ok := nd.Watch[nil]; ok && len(nd.Watch) == 1 && set == 0 {
-- 
2.43.0


From 189199a9924c53c01e0cbc670ba1f8e3cb31b883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 02/58] fix: watch a directory created under a previously used
 name

When a directory was renamed, or removed while Remove was not listened for,
its node stayed in the tree. A directory created later under the same name
was then assumed to be watched already.
---
 tree_nonrecursive.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index f716ee7..9cd9d07 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -110,7 +110,7 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 		if ei.Path() != nd.Name {
 			nd = nd.Add(ei.Path())
 		}
-		err := nd.AddDir(t.recFunc(eset))
+		err := nd.AddDir(t.createFunc(eset))
 		t.rw.Unlock()
 		if err != nil {
 			dbgprintf("internal(%p) error: %v", rec, err)
@@ -228,6 +228,23 @@ func (t *nonrecursiveTree) recFunc(e Event) walkFunc {
 	}
 }
 
+// createFunc is like recFunc, but it is meant for directories which have just
+// been created: watchpoints that already exist under their names were set for
+// different directories, since renamed or deleted, so they are watched anew.
+func (t *nonrecursiveTree) createFunc(e Event) walkFunc {
+	fn := t.recFunc(e)
+	return func(nd node) error {
+		total := nd.Watch.Total()
+		if err := fn(nd); err != nil {
+			return err
+		}
+		if total != 0 && total == nd.Watch.Total() {
+			t.w.Watch(nd.Name, total)
+		}
+		return nil
+	}
+}
+
 func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error {
 	var traverse func(walkFunc) error
 	// Non-recursive tree listens on Create event for every recursive
-- 
2.43.0


From 850586b358620898453568e7900913afbc1061ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 03/58] fix: remove every watch descriptor of an unwatched path

After a directory was replaced there may be two descriptors mapped to one
path; Unwatch removed an arbitrary one of them and left the other behind.
---
 watcher_inotify.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/watcher_inotify.go b/watcher_inotify.go
index 02b4328..8bc5f55 100644
--- a/watcher_inotify.go
+++ b/watcher_inotify.go
@@ -340,25 +340,28 @@ func decode(mask Event, e *event) (syse *event) {
 // This method is allowed to return EINVAL error when concurrently requested to
 // delete identical path.
 func (i *inotify) Unwatch(path string) (err error) {
-	iwd := int32(invalidDescriptor)
+	// Besides the current one there may be watch descriptors of files which
+	// were at the path before.
+	var iwds []int32
 	i.RLock()
 	for iwdkey, wd := range i.m {
 		if wd.path == path {
-			iwd = iwdkey
-			break
+			iwds = append(iwds, iwdkey)
 		}
 	}
 	i.RUnlock()
-	if iwd == invalidDescriptor {
+	if len(iwds) == 0 {
 		return errors.New("notify: path " + path + " is already watched")
 	}
 	fd := atomic.LoadInt32(&i.fd)
-	if err = removeInotifyWatch(fd, iwd); err != nil {
-		return
+	for _, iwd := range iwds {
+		if err = removeInotifyWatch(fd, iwd); err != nil {
+			return
+		}
+		i.Lock()
+		delete(i.m, iwd)
+		i.Unlock()
 	}
-	i.Lock()
-	delete(i.m, iwd)
-	i.Unlock()
 	return nil
 }
 
-- 
2.43.0


From d6dff0c05468a09a4c4caf00d1903f1d10fba410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 04/58] fix: watch a directory recreated before its removal was
 handled

---
 tree_nonrecursive.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 9cd9d07..02a4576 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -4,7 +4,10 @@
 
 package notify
 
-import "sync"
+import (
+	"os"
+	"sync"
+)
 
 // nonrecursiveTree TODO(rjeczalik)
 type nonrecursiveTree struct {
@@ -91,8 +94,12 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 				return nil
 			})
 			t.root.Del(ei.Path())
-			t.rw.Unlock()
-			continue
+			// The directory may have been created anew before its removal
+			// was handled, in which case it needs to be watched again.
+			if fi, err := os.Lstat(ei.Path()); err != nil || !fi.IsDir() {
+				t.rw.Unlock()
+				continue
+			}
 		}
 		var nd node
 		var eset = internal
-- 
2.43.0


From e0411af354c9c5b4e243711b3d607adfdb9a067d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 05/58] fix: keep adding directories when one of them vanished
 meanwhile

---
 node.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/node.go b/node.go
index ad7d04f..43841d3 100644
--- a/node.go
+++ b/node.go
@@ -9,6 +9,7 @@ import (
 	"io/fs"
 	"os"
 	"path/filepath"
+	"syscall"
 )
 
 var errSkip = errors.New("notify: skip")
@@ -60,8 +61,8 @@ func (nd node) Add(name string) node {
 	return nd.addchild(name, name[i:])
 }
 
-func (nd node) AddDir(fn walkFunc) error {
-	stack := []node{nd}
+func (nd node) AddDir(fn walkFunc) (err error) {
+	stack, root := []node{nd}, nd.Name
 Traverse:
 	for n := len(stack); n != 0; n = len(stack) {
 		nd, stack = stack[n-1], stack[:n-1]
@@ -78,9 +79,14 @@ Traverse:
 		}
 		// TODO(rjeczalik): tolerate open failures - add failed names to
 		// AddDirError and notify users which names are not added to the tree.
-		fi, err := os.ReadDir(nd.Name)
-		if err != nil {
-			return err
+		fi, e := os.ReadDir(nd.Name)
+		if e != nil {
+			// A failure must not prevent the remaining directories from being
+			// added, and a directory which vanished meanwhile is not one.
+			if err == nil && (nd.Name == root || !isgone(e)) {
+				err = e
+			}
+			continue
 		}
 		for _, fi := range fi {
 			if fi.Type()&(fs.ModeSymlink|fs.ModeDir) == fs.ModeDir {
@@ -89,7 +95,13 @@ Traverse:
 			}
 		}
 	}
-	return nil
+	return err
+}
+
+// isgone reports whether reading a directory failed with the given error,
+// because the directory was removed or replaced with a file.
+func isgone(err error) bool {
+	return os.IsNotExist(err) || errors.Is(err, syscall.ENOTDIR)
 }
 
 func (nd node) Get(name string) (node, error) {
-- 
2.43.0


From c50382ac7794a44c4bb188dcb9d86e2b1f882f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 06/58] fix: do not add recursive watches to watched files

---
 tree_nonrecursive.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 02a4576..47db356 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -270,7 +270,16 @@ func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error
 		// recursive watchpoint is encountered.
 		traverse = nd.AddDir
 	default:
-		traverse = nd.Walk
+		// Nodes without recursive event set are not directories; they are in
+		// the tree because they are watched on their own.
+		traverse = func(fn walkFunc) error {
+			return nd.Walk(func(nd node) error {
+				if _, ok := nd.Watch[t.rec]; !ok {
+					return nil
+				}
+				return fn(nd)
+			})
+		}
 	}
 	// TODO(rjeczalik): account every path that failed to be (re)watched
 	// and retry.
-- 
2.43.0


From 6f61fc15f88a28e91251253161458022299aa94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 07/58] fix: forget everything a failed Watch added

---
 tree_nonrecursive.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 47db356..180f3dd 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -200,6 +200,7 @@ func (t *nonrecursiveTree) Watch(path string, c chan<- EventInfo, events ...Even
 }
 
 func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err error) {
+	old := nd.Watch[c]
 	diff := nd.Watch.Add(c, e)
 	switch {
 	case diff == none:
@@ -213,7 +214,9 @@ func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err erro
 		err = t.w.Rewatch(nd.Name, diff[0], diff[1])
 	}
 	if err != nil {
-		nd.Watch.Del(c, diff.Event())
+		// Remove what was added for c, which may be more than the watcher was
+		// requested to add.
+		nd.Watch.Del(c, e&^old)
 		return err
 	}
 	return nil
-- 
2.43.0


From 6cb876d7b375e3df907888d3d3d557e6a37defe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 08/58] fix: report failures of recursive Watch and undo what
 it did

---
 tree_nonrecursive.go | 48 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 180f3dd..4ac613a 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -223,18 +223,22 @@ func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err erro
 }
 
 func (t *nonrecursiveTree) recFunc(e Event) walkFunc {
-	return func(nd node) error {
+	return func(nd node) (err error) {
+		old := nd.Watch[t.rec]
 		switch diff := nd.Watch.Add(t.rec, e|omit|Create); {
 		case diff == none:
 		case diff[1] == 0:
 			// TODO(rjeczalik): cleanup this panic after implementation is stable
 			panic("eset is empty: " + nd.Name)
 		case diff[0] == 0:
-			t.w.Watch(nd.Name, diff[1])
+			err = t.w.Watch(nd.Name, diff[1])
 		default:
-			t.w.Rewatch(nd.Name, diff[0], diff[1])
+			err = t.w.Rewatch(nd.Name, diff[0], diff[1])
 		}
-		return nil
+		if err != nil {
+			nd.Watch.Del(t.rec, (e|omit|Create)&^old)
+		}
+		return err
 	}
 }
 
@@ -246,7 +250,9 @@ func (t *nonrecursiveTree) createFunc(e Event) walkFunc {
 	return func(nd node) error {
 		total := nd.Watch.Total()
 		if err := fn(nd); err != nil {
-			return err
+			// TODO(rjeczalik): account the path and retry.
+			dbgprintf("failed to watch %q: %v", nd.Name, err)
+			return errSkip
 		}
 		if total != 0 && total == nd.Watch.Total() {
 			t.w.Watch(nd.Name, total)
@@ -284,9 +290,35 @@ func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error
 			})
 		}
 	}
-	// TODO(rjeczalik): account every path that failed to be (re)watched
-	// and retry.
-	if err := traverse(t.recFunc(e)); err != nil {
+	// If any path fails to be (re)watched, the ones which succeeded are
+	// brought back to their previous state.
+	type undo struct {
+		nd  node
+		old Event
+	}
+	var done []undo
+	fn := t.recFunc(e)
+	err := traverse(func(it node) error {
+		old := it.Watch[t.rec]
+		if err := fn(it); err != nil {
+			if it.Name != nd.Name && isgone(err) {
+				return errSkip
+			}
+			return err
+		}
+		done = append(done, undo{it, old})
+		return nil
+	})
+	if err != nil {
+		for _, u := range done {
+			switch diff := u.nd.Watch.Del(t.rec, (e|omit|Create)&^u.old); {
+			case diff == none:
+			case diff[1] == 0:
+				t.w.Unwatch(u.nd.Name)
+			default:
+				t.w.Rewatch(u.nd.Name, diff[0], diff[1])
+			}
+		}
 		return err
 	}
 	t.watchAdd(nd, c, e)
-- 
2.43.0


From b62f4613c447813f60f589440a51b70be7c76f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 09/58] fix: refuse events with internal bits

---
 event.go             | 5 +++++
 tree_nonrecursive.go | 3 +++
 tree_recursive.go    | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/event.go b/event.go
index 4b4b102..5f4d293 100644
--- a/event.go
+++ b/event.go
@@ -5,6 +5,7 @@
 package notify
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 )
@@ -33,6 +34,10 @@ const (
 
 const internal = recursive | omit
 
+// errUnknownEvent is returned for events which cannot be watched for, since they
+// have a meaning for the implementation only.
+var errUnknownEvent = errors.New("notify: unknown event")
+
 // String implements fmt.Stringer interface.
 func (e Event) String() string {
 	var s []string
diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 4ac613a..6583f0b 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -190,6 +190,9 @@ func (t *nonrecursiveTree) Watch(path string, c chan<- EventInfo, events ...Even
 		return err
 	}
 	eset := joinevents(events)
+	if eset&internal != 0 {
+		return errUnknownEvent
+	}
 	t.rw.Lock()
 	defer t.rw.Unlock()
 	nd := t.root.Add(path)
diff --git a/tree_recursive.go b/tree_recursive.go
index 7f00dfe..a9b8752 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -166,6 +166,9 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		return err
 	}
 	eventset := joinevents(events)
+	if eventset&internal != 0 {
+		return errUnknownEvent
+	}
 	if isrec {
 		eventset |= recursive
 	}
-- 
2.43.0


From c9ddadb0eb449ae5c1d9643093ff15ff6eb40763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 10/58] fix: publish the inotify descriptor when it is fully
 set up

---
 watcher_inotify.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/watcher_inotify.go b/watcher_inotify.go
index 8bc5f55..aceb5c9 100644
--- a/watcher_inotify.go
+++ b/watcher_inotify.go
@@ -119,12 +119,12 @@ func (i *inotify) lazyinit() error {
 			if err != nil {
 				return err
 			}
-			i.fd = int32(fd)
-			if err = i.epollinit(); err != nil {
+			if err = i.epollinit(int32(fd)); err != nil {
 				_, _ = i.epollclose(), unix.Close(int(fd)) // Ignore errors.
-				i.fd = invalidDescriptor
 				return err
 			}
+			// Concurrent calls may use the descriptor from now on.
+			atomic.StoreInt32(&i.fd, int32(fd))
 			esch := make(chan []*event)
 			go i.loop(esch)
 			i.wg.Add(consumersCount)
@@ -139,8 +139,7 @@ func (i *inotify) lazyinit() error {
 // epollinit opens an epoll file descriptor and creates a pipe which will be
 // used to wake up the epoll_wait(2) function. Then, file descriptor associated
 // with inotify event queue and the read end of the pipe are added to epoll set.
-// Note that `fd` member must be set before this function is called.
-func (i *inotify) epollinit() (err error) {
+func (i *inotify) epollinit(fd int32) (err error) {
 	if i.epfd, err = unix.EpollCreate1(0); err != nil {
 		return
 	}
@@ -148,10 +147,10 @@ func (i *inotify) epollinit() (err error) {
 		return
 	}
 	i.epes = []unix.EpollEvent{
-		{Events: unix.EPOLLIN, Fd: i.fd},
+		{Events: unix.EPOLLIN, Fd: fd},
 		{Events: unix.EPOLLIN, Fd: int32(i.pipefd[0])},
 	}
-	if err = unix.EpollCtl(i.epfd, unix.EPOLL_CTL_ADD, int(i.fd), &i.epes[0]); err != nil {
+	if err = unix.EpollCtl(i.epfd, unix.EPOLL_CTL_ADD, int(fd), &i.epes[0]); err != nil {
 		return
 	}
 	return unix.EpollCtl(i.epfd, unix.EPOLL_CTL_ADD, i.pipefd[0], &i.epes[1])
-- 
2.43.0


From a0a12296d160bc9e7e2192c9f8a29058249d479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 11/58] fix: read the inotify descriptor atomically in watch

---
 watcher_inotify.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher_inotify.go b/watcher_inotify.go
index aceb5c9..e600d07 100644
--- a/watcher_inotify.go
+++ b/watcher_inotify.go
@@ -90,7 +90,7 @@ func (i *inotify) watch(path string, e Event) (err error) {
 	if err = i.lazyinit(); err != nil {
 		return
 	}
-	iwd, err := unix.InotifyAddWatch(int(i.fd), path, encode(e))
+	iwd, err := unix.InotifyAddWatch(int(atomic.LoadInt32(&i.fd)), path, encode(e))
 	if err != nil {
 		return
 	}
-- 
2.43.0


From c8d16d8b107195b0b839f8243b26505f2a510ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:26 +0000
Subject: [PATCH 12/58] fix: resolve symlinks in deep paths and directly below
 the root

---
 util.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/util.go b/util.go
index 7b50b0c..6376318 100644
--- a/util.go
+++ b/util.go
@@ -63,16 +63,13 @@ func cleanpath(path string) (realpath string, isrec bool, err error) {
 
 // canonical resolves any symlink in the given path and returns it in a clean form.
 // It expects the path to be absolute. It fails to resolve circular symlinks by
-// maintaining a simple iteration limit.
+// maintaining a simple limit of symlinks followed.
 func canonical(p string) (string, error) {
 	p, err := filepath.Abs(p)
 	if err != nil {
 		return "", err
 	}
-	for i, j, depth := 1, 0, 1; i < len(p); i, depth = i+1, depth+1 {
-		if depth > 128 {
-			return "", &os.PathError{Op: "canonical", Path: p, Err: errDepth}
-		}
+	for i, j, depth := 1, 0, 0; i < len(p); i++ {
 		if j = strings.IndexRune(p[i:], '/'); j == -1 {
 			j, i = i, len(p)
 		} else {
@@ -83,16 +80,19 @@ func canonical(p string) (string, error) {
 			return "", err
 		}
 		if fi.Mode()&os.ModeSymlink == os.ModeSymlink {
+			if depth++; depth > 128 {
+				return "", &os.PathError{Op: "canonical", Path: p, Err: errDepth}
+			}
 			s, err := os.Readlink(p[:i])
 			if err != nil {
 				return "", err
 			}
 			if filepath.IsAbs(s) {
-				p = "/" + s + p[i:]
+				p = s + p[i:]
 			} else {
 				p = p[:j] + s + p[i:]
 			}
-			i = 1 // no guarantee s is canonical, start all over
+			i = 0 // no guarantee s is canonical, start all over
 		}
 	}
 	return filepath.Clean(p), nil
-- 
2.43.0


From 54a52092be44c27fcce431d63b91a38355647e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 13/58] fix: resolve symlinks before parent directory elements
 of a path

---
 util.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/util.go b/util.go
index 6376318..8bb09d5 100644
--- a/util.go
+++ b/util.go
@@ -52,7 +52,7 @@ func cleanpath(path string) (realpath string, isrec bool, err error) {
 		isrec = true
 		path = path[:len(path)-3]
 	}
-	if path, err = filepath.Abs(path); err != nil {
+	if path, err = abspath(path); err != nil {
 		return "", false, err
 	}
 	if path, err = canonical(path); err != nil {
@@ -61,11 +61,28 @@ func cleanpath(path string) (realpath string, isrec bool, err error) {
 	return path, isrec, nil
 }
 
+// abspath gives an absolute representation of the path. Unlike filepath.Abs it
+// does not clean the path where there are symlinks, since the meaning of ".."
+// depends on what the preceding elements are resolved to.
+func abspath(path string) (string, error) {
+	if os.PathSeparator != '/' {
+		return filepath.Abs(path)
+	}
+	if filepath.IsAbs(path) {
+		return path, nil
+	}
+	wd, err := os.Getwd()
+	if err != nil {
+		return "", err
+	}
+	return wd + sep + path, nil
+}
+
 // canonical resolves any symlink in the given path and returns it in a clean form.
 // It expects the path to be absolute. It fails to resolve circular symlinks by
 // maintaining a simple limit of symlinks followed.
 func canonical(p string) (string, error) {
-	p, err := filepath.Abs(p)
+	p, err := abspath(p)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 9543edb857a19be9a70d24b396363446034ef597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 14/58] fix: deliver events from the root directory

---
 node.go | 40 ++++++++++++++++++++++++----------------
 util.go |  3 +++
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/node.go b/node.go
index 43841d3..9fd0460 100644
--- a/node.go
+++ b/node.go
@@ -50,6 +50,9 @@ func (nd node) addchild(name, base string) node {
 }
 
 func (nd node) Add(name string) node {
+	if name == nd.Name {
+		return nd
+	}
 	i := indexrel(nd.Name, name)
 	if i == -1 {
 		return node{}
@@ -91,7 +94,7 @@ Traverse:
 		for _, fi := range fi {
 			if fi.Type()&(fs.ModeSymlink|fs.ModeDir) == fs.ModeDir {
 				name := filepath.Join(nd.Name, fi.Name())
-				stack = append(stack, nd.addchild(name, name[len(nd.Name)+1:]))
+				stack = append(stack, nd.addchild(name, fi.Name()))
 			}
 		}
 	}
@@ -179,6 +182,12 @@ Traverse:
 }
 
 func (nd node) WalkPath(name string, fn walkPathFunc) error {
+	if name == nd.Name {
+		if err := fn(nd, true); err != errSkip {
+			return err
+		}
+		return nil
+	}
 	i := indexrel(nd.Name, name)
 	if i == -1 {
 		return errnotexist(name)
@@ -215,30 +224,23 @@ func (nd node) WalkPath(name string, fn walkPathFunc) error {
 	}
 }
 
+// root is a parent of root directories: a single one or, where there are
+// volumes, one for each of them.
 type root struct {
 	nd node
 }
 
 func (r root) addroot(name string) node {
-	if vol := filepath.VolumeName(name); vol != "" {
-		root, ok := r.nd.Child[vol]
-		if !ok {
-			root = r.nd.addchild(vol, vol)
-		}
-		return root
-	}
-	return r.nd
+	dir := filepath.VolumeName(name) + sep
+	return r.nd.addchild(dir, dir)
 }
 
 func (r root) root(name string) (node, error) {
-	if vol := filepath.VolumeName(name); vol != "" {
-		nd, ok := r.nd.Child[vol]
-		if !ok {
-			return node{}, errnotexist(name)
-		}
-		return nd, nil
+	nd, ok := r.nd.Child[filepath.VolumeName(name)+sep]
+	if !ok {
+		return node{}, errnotexist(name)
 	}
-	return r.nd, nil
+	return nd, nil
 }
 
 func (r root) Add(name string) node {
@@ -258,6 +260,9 @@ func (r root) Del(name string) error {
 }
 
 func (r root) Get(name string) (node, error) {
+	if name == r.nd.Name {
+		return r.nd, nil
+	}
 	nd, err := r.root(name)
 	if err != nil {
 		return node{}, err
@@ -279,6 +284,9 @@ func (r root) Walk(name string, fn walkFunc) error {
 }
 
 func (r root) WalkPath(name string, fn walkPathFunc) error {
+	if name == filepath.VolumeName(name) {
+		name += sep // split gives a root directory with no trailing separator
+	}
 	nd, err := r.root(name)
 	if err != nil {
 		return err
diff --git a/util.go b/util.go
index 8bb09d5..d7da8c6 100644
--- a/util.go
+++ b/util.go
@@ -143,6 +143,9 @@ func base(s string) string {
 // indexrel returns the index of the first char of name that is
 // below/relative to root. It returns -1 if name is not a child of root.
 func indexrel(root, name string) int {
+	if root == filepath.VolumeName(name)+sep {
+		root = root[:len(root)-1]
+	}
 	if n, m := len(root), len(name); m > n && name[:n] == root &&
 		name[n] == os.PathSeparator {
 		return n + 1
-- 
2.43.0


From 9db9b35ea3079c48e0cda8f40dc0fcfadddf8190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 15/58] fix: keep a native watch which other channels still
 need

---
 tree_recursive.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index a9b8752..224c241 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -58,16 +58,13 @@ func watchCopy(src, dst node) {
 
 // watchDel TODO(rjeczalik)
 func watchDel(nd node, c chan<- EventInfo, e Event) eventDiff {
-	diff := nd.Watch.Del(c, e)
+	diff := eventDiff{watchTotal(nd)}
+	nd.Watch.Del(c, e)
 	if wp := nd.Child[""].Watch; len(wp) != 0 {
-		diffInactive := wp.Del(c, e)
-		e = wp.Total()
-		// TODO(rjeczalik): add e if e != all?
-		diff[0] |= diffInactive[0] | e
-		diff[1] |= diffInactive[1] | e
-		if diff[0] == diff[1] {
-			return none
-		}
+		wp.Del(c, e)
+	}
+	if diff[1] = watchTotal(nd); diff[0] == diff[1] {
+		return none
 	}
 	return diff
 }
-- 
2.43.0


From 5065bf471d8d8356a3116e6421fe08d9faeffba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 16/58] fix: make a native watch recursive when its event set
 stays the same

---
 tree_recursive.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tree_recursive.go b/tree_recursive.go
index 224c241..537be52 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -189,12 +189,19 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		// Parent watch found. Register inactive watchpoint, so we have enough
 		// information to shrink the eventset on eventual Stop.
 		// return t.resetwatchpoint(parent, parent, c, eventset|inactive)
+		wasrec := watchIsRecursive(parent)
 		var diff eventDiff
 		if self {
 			diff = watchAdd(cur, c, eventset)
 		} else {
 			diff = watchAddInactive(parent, c, eventset)
 		}
+		if diff == none && !wasrec && watchIsRecursive(parent) {
+			// the parent watchpoint covers requested eventset, but not yet
+			// the subtree
+			total := watchTotal(parent)
+			diff = eventDiff{total, total}
+		}
 		switch {
 		case diff == none:
 			// the parent watchpoint already covers requested subtree with its
-- 
2.43.0


From 95f478f8cd13b6bbaf84a5c2e2337525a32c37ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 17/58] fix: never dispatch an event of the root directory to
 inactive watchpoints

---
 tree_recursive.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index 537be52..7047f67 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -141,8 +141,9 @@ func (t *recursiveTree) dispatch() {
 			}
 			// Notify parent watchpoint.
 			nd.Watch.Dispatch(ei, 0)
-			// If leaf watchpoint exists, notify it.
-			if nd, ok = nd.Child[base]; ok {
+			// If leaf watchpoint exists, notify it. There is none for a root
+			// directory, which is not a node storing inactive watchpoints.
+			if nd, ok = nd.Child[base]; ok && base != "" {
 				nd.Watch.Dispatch(ei, 0)
 			}
 		}(ei)
-- 
2.43.0


From 7f513c3e00ce4499941c8349d7765722504efde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:53 +0000
Subject: [PATCH 18/58] fix: account inactive watchpoints of nodes not watched
 on their own

---
 tree_recursive.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index 7047f67..d5e667f 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -45,14 +45,11 @@ func watchCopy(src, dst node) {
 		}
 		watchAddInactive(dst, c, e)
 	}
-	if wpsrc := src.Child[""].Watch; len(wpsrc) != 0 {
-		wpdst := dst.Child[""].Watch
-		for c, e := range wpsrc {
-			if c == nil {
-				continue
-			}
-			wpdst.Add(c, e)
+	for c, e := range src.Child[""].Watch {
+		if c == nil {
+			continue
 		}
+		watchAddInactive(dst, c, e)
 	}
 }
 
@@ -234,7 +231,7 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 	// Look for children nodes, unwatch n-1 of them and rewatch the last one.
 	var children []node
 	fn := func(nd node) error {
-		if len(nd.Watch) == 0 {
+		if watchTotal(nd) == 0 {
 			return nil
 		}
 		children = append(children, nd)
-- 
2.43.0


From d133b4b661b7b53534f7d062fc13ba981b29e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 19/58] fix: leave nothing behind when a native watch cannot be
 made

---
 tree_recursive.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index d5e667f..b32ec34 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -189,9 +189,12 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		// return t.resetwatchpoint(parent, parent, c, eventset|inactive)
 		wasrec := watchIsRecursive(parent)
 		var diff eventDiff
+		var old Event
 		if self {
+			old = cur.Watch[c]
 			diff = watchAdd(cur, c, eventset)
 		} else {
+			old = parent.Child[""].Watch[c]
 			diff = watchAddInactive(parent, c, eventset)
 		}
 		if diff == none && !wasrec && watchIsRecursive(parent) {
@@ -214,7 +217,13 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 				err = t.w.Rewatch(parent.Name, diff[0], diff[1])
 			}
 			if err != nil {
-				watchDel(parent, c, diff.Event())
+				// Remove what was added, which may be more than the watcher
+				// was requested to add.
+				wp := parent.Watch
+				if !self {
+					wp = parent.Child[""].Watch
+				}
+				wp.Del(c, eventset&^old)
 				return err
 			}
 			watchAdd(cur, c, eventset)
@@ -247,8 +256,8 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 			watchTotal(cur))
 		if err != nil {
 			// Clean inactive watchpoint. The c chan did not exist before.
-			cur.Child[""] = node{}
-			delete(cur.Watch, c)
+			delete(cur.Child, "")
+			watchDel(cur, c, all)
 			return err
 		}
 		return nil
@@ -261,8 +270,8 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		// Watch parent subtree.
 		if err = t.w.RecursiveWatch(cur.Name, watchTotal(cur)); err != nil {
 			// Clean inactive watchpoint. The c chan did not exist before.
-			cur.Child[""] = node{}
-			delete(cur.Watch, c)
+			delete(cur.Child, "")
+			watchDel(cur, c, all)
 			return err
 		}
 		// Unwatch children subtrees.
@@ -293,7 +302,7 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 			err = t.w.Watch(cur.Name, diff[1])
 		}
 		if err != nil {
-			watchDel(cur, c, diff.Event())
+			watchDel(cur, c, all)
 			return err
 		}
 	default:
-- 
2.43.0


From 6bb41be08e6c22e6de1ef349a2e37022b2d2b61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 20/58] fix: do not close foreign descriptors when the pipe
 cannot be created

---
 watcher_inotify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/watcher_inotify.go b/watcher_inotify.go
index e600d07..393790f 100644
--- a/watcher_inotify.go
+++ b/watcher_inotify.go
@@ -144,6 +144,8 @@ func (i *inotify) epollinit(fd int32) (err error) {
 		return
 	}
 	if err = unix.Pipe(i.pipefd); err != nil {
+		// A failed call may have stored values which are no descriptors of ours.
+		i.pipefd[0], i.pipefd[1] = invalidDescriptor, invalidDescriptor
 		return
 	}
 	i.epes = []unix.EpollEvent{
-- 
2.43.0


From 550c641f077c8a8185267936743caaf44d8525be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 21/58] fix: report events under a watched root directory
 (FSEvents)

---
 watcher_fsevents.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/watcher_fsevents.go b/watcher_fsevents.go
index dab5286..d8c331d 100644
--- a/watcher_fsevents.go
+++ b/watcher_fsevents.go
@@ -136,7 +136,8 @@ func (w *watch) Dispatch(ev []FSEvent) {
 		if !strings.HasPrefix(ev[i].Path, w.path) {
 			continue
 		}
-		n := len(w.path)
+		// The root directory is the only path which ends with a separator.
+		n := len(strings.TrimSuffix(w.path, sep))
 		base := ""
 		if len(ev[i].Path) > n {
 			if ev[i].Path[n] != '/' {
-- 
2.43.0


From f12af3115895a1d887528b3eb94383be81d85546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 22/58] fix: keep the old FSEvents watch when relocating it
 fails

---
 watcher_fsevents.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/watcher_fsevents.go b/watcher_fsevents.go
index d8c331d..9db5866 100644
--- a/watcher_fsevents.go
+++ b/watcher_fsevents.go
@@ -294,11 +294,18 @@ func (fse *fsevents) RecursiveRewatch(oldpath, newpath string, oldevent, neweven
 		if _, ok := fse.watches[newpath]; ok {
 			return errAlreadyWatched
 		}
-		if err := fse.Unwatch(oldpath); err != nil {
+		if _, ok := fse.watches[oldpath]; !ok {
+			return errNotWatched
+		}
+		// Unwatch oldpath no sooner than newpath is being watched, so it's still
+		// watched if that fails. The new watch-point reports nothing until then,
+		// as both may cover the same paths.
+		if err := fse.watch(newpath, 0, 1); err != nil {
 			return err
 		}
-		// TODO(rjeczalik): revert unwatch if watch fails?
-		return fse.watch(newpath, newevent, 1)
+		err := fse.unwatch(oldpath)
+		atomic.StoreUint32(&fse.watches[newpath].events, uint32(newevent))
+		return err
 	}
 }
 
-- 
2.43.0


From 7d435fa1d384deeb888798c601f3c0ff57298bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:47 +0000
Subject: [PATCH 23/58] fix: close the kqueue watcher without holding the lock
 the monitor needs

---
 watcher_trigger.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 7cd0824..97ac837 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -116,12 +116,12 @@ func newWatcher(c chan<- EventInfo) watcher {
 
 // Close implements watcher.
 func (t *trg) Close() (err error) {
-	t.Lock()
+	// The monitor needs the lock to finish what it is processing.
 	if err = t.t.Stop(); err != nil {
-		t.Unlock()
 		return
 	}
 	<-t.s
+	t.Lock()
 	var e error
 	for _, w := range t.pthLkp {
 		if e = t.unwatch(w.p, w.fi); e != nil {
-- 
2.43.0


From 98cd7bcc263c91320aa99599ce1063a26dd8447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 24/58] fix: release all descriptors of the kqueue watcher when
 closing it

---
 watcher_kqueue.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/watcher_kqueue.go b/watcher_kqueue.go
index 715edfb..50f9c72 100644
--- a/watcher_kqueue.go
+++ b/watcher_kqueue.go
@@ -17,8 +17,10 @@ import (
 // newTrigger returns implementation of trigger.
 func newTrigger(pthLkp map[string]*watched) trigger {
 	return &kq{
-		pthLkp: pthLkp,
-		idLkp:  make(map[int]*watched),
+		fd:      -1,
+		pipefds: [2]int{-1, -1},
+		pthLkp:  pthLkp,
+		idLkp:   make(map[int]*watched),
 	}
 }
 
@@ -51,8 +53,14 @@ func (k *kq) Stop() (err error) {
 }
 
 // Close implements trigger.
-func (k *kq) Close() error {
-	return syscall.Close(k.fd)
+func (k *kq) Close() (err error) {
+	for _, fd := range []*int{&k.fd, &k.pipefds[0], &k.pipefds[1]} {
+		if *fd != -1 {
+			err = nonil(err, syscall.Close(*fd))
+			*fd = -1
+		}
+	}
+	return
 }
 
 // NewWatched implements trigger.
@@ -105,9 +113,11 @@ func (k *kq) Init() (err error) {
 	}
 	// Creates pipe used to stop `Kevent` call by registering it,
 	// watching read end and writing to other end of it.
-	if err = syscall.Pipe(k.pipefds[:]); err != nil {
+	var pipefds [2]int
+	if err = syscall.Pipe(pipefds[:]); err != nil {
 		return nonil(err, k.Close())
 	}
+	k.pipefds = pipefds
 	var kevn [1]syscall.Kevent_t
 	syscall.SetKevent(&kevn[0], k.pipefds[0], syscall.EVFILT_READ, syscall.EV_ADD)
 	if _, err = syscall.Kevent(k.fd, kevn[:], nil, nil); err != nil {
-- 
2.43.0


From 2c80105bf0d6eded981c11a417dd7056d31d3cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 25/58] fix: do not close a trigger that failed to start

---
 watcher_trigger.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 97ac837..2fb9c28 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -107,7 +107,6 @@ func newWatcher(c chan<- EventInfo) watcher {
 	}
 	t.t = newTrigger(t.pthLkp)
 	if err := t.t.Init(); err != nil {
-		t.Close()
 		return watcherStub{fmt.Errorf("failed setting up watcher: %v", err)}
 	}
 	go t.monitor()
-- 
2.43.0


From 8c60f9639f41f6ff6e70696e8ba2c70bd4d0bce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 26/58] fix: close the descriptor of a watched file only once

---
 watcher_kqueue.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/watcher_kqueue.go b/watcher_kqueue.go
index 50f9c72..b78c7cb 100644
--- a/watcher_kqueue.go
+++ b/watcher_kqueue.go
@@ -93,6 +93,9 @@ func (k *kq) Record(w *watched) {
 
 // Del implements trigger.
 func (k *kq) Del(w *watched) {
+	if k.idLkp[w.fd] != w {
+		return // already deleted; the descriptor may be of another file by now
+	}
 	syscall.Close(w.fd)
 	delete(k.idLkp, w.fd)
 	delete(k.pthLkp, w.p)
-- 
2.43.0


From 30aa9f040a24e9ce7362ef9b20342aeb927f7ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 27/58] fix: leave nothing watched behind when watching fails

---
 watcher_trigger.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 2fb9c28..17e81c6 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -157,6 +157,7 @@ func (t *trg) singlewatch(p string, e Event, direct mode, fi os.FileInfo) (err e
 			return
 		}
 	}
+	eDir, eNonDir := w.eDir, w.eNonDir
 	switch direct {
 	case dir:
 		w.eDir |= e
@@ -166,11 +167,18 @@ func (t *trg) singlewatch(p string, e Event, direct mode, fi os.FileInfo) (err e
 		w.eDir |= e
 		w.eNonDir |= e
 	}
+	if !ok {
+		t.t.Record(w)
+	}
 	if err = t.t.Watch(fi, w, encode(w.eDir|w.eNonDir, fi.IsDir())); err != nil {
+		if ok {
+			w.eDir, w.eNonDir = eDir, eNonDir
+		} else {
+			t.t.Del(w)
+		}
 		return
 	}
 	if !ok {
-		t.t.Record(w)
 		return nil
 	}
 	return errAlreadyWatched
@@ -210,6 +218,9 @@ func (t *trg) watch(p string, e Event, fi os.FileInfo) error {
 			return nil
 		})
 		if err != nil {
+			if e := t.unwatch(p, fi); e != nil {
+				dbgprintf("trg: unwatch %q failed: %q\n", p, e)
+			}
 			return err
 		}
 	}
@@ -237,15 +248,13 @@ func (t *trg) walk(p string, fn func(os.FileInfo) error) error {
 
 func (t *trg) unwatch(p string, fi os.FileInfo) error {
 	if fi.IsDir() {
-		err := t.walk(p, func(fi os.FileInfo) error {
-			err := t.singleunwatch(filepath.Join(p, fi.Name()), ndir)
-			if err != errNotWatched {
+		for q := range t.pthLkp {
+			if q == p || filepath.Dir(q) != p {
+				continue
+			}
+			if err := t.singleunwatch(q, ndir); err != nil && err != errNotWatched {
 				return err
 			}
-			return nil
-		})
-		if err != nil {
-			return err
 		}
 	}
 	return t.singleunwatch(p, dir)
-- 
2.43.0


From c10e61b0df040d8ea1965c58ac968db637f6e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 28/58] fix: do not fail to watch a directory for an entry that
 is gone already

---
 watcher_trigger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 17e81c6..eceafcd 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -211,7 +211,7 @@ func (t *trg) watch(p string, e Event, fi os.FileInfo) error {
 		err := t.walk(p, func(fi os.FileInfo) (err error) {
 			if err = t.singlewatch(filepath.Join(p, fi.Name()), e, ndir,
 				fi); err != nil {
-				if err != errAlreadyWatched {
+				if err != errAlreadyWatched && !os.IsNotExist(err) {
 					return
 				}
 			}
-- 
2.43.0


From 1f20bef08a7149741d218780ec7886f4c471dbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 29/58] fix: report failures to change what a trigger watches,
 and keep the old watch

---
 watcher_trigger.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index eceafcd..bfb48c3 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -287,19 +287,22 @@ func (t *trg) Unwatch(p string) error {
 // Rewatch implements Watcher interface.
 //
 // TODO(rjeczalik): This is a naive hack. Rewrite might help.
-func (t *trg) Rewatch(p string, _, e Event) error {
+func (t *trg) Rewatch(p string, olde, e Event) error {
 	fi, err := os.Stat(p)
 	if err != nil {
 		return err
 	}
 	t.Lock()
-	if err = t.unwatch(p, fi); err == nil {
-		// TODO(rjeczalik): If watch fails then we leave trigger in inconsistent
-		// state. Handle? Panic? Native version of rewatch?
-		err = t.watch(p, e, fi)
+	defer t.Unlock()
+	if err = t.unwatch(p, fi); err != nil && err != errNotWatched {
+		return err
 	}
-	t.Unlock()
-	return nil
+	if err = t.watch(p, e, fi); err != nil {
+		if e := t.watch(p, olde, fi); e != nil {
+			dbgprintf("trg: bringing back the watch of %q failed: %q\n", p, e)
+		}
+	}
+	return err
 }
 
 func (*trg) file(w *watched, n interface{}, e Event) (evn []event) {
-- 
2.43.0


From 5edd6ae2c7256dc92386adfe870798263e96139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 30/58] fix: rescan only directories whose entries are watched

---
 watcher_trigger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index bfb48c3..984262c 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -342,7 +342,7 @@ func (t *trg) dir(w *watched, n interface{}, e, ge Event) (evn []event) {
 		t.t.Del(w)
 		return
 	}
-	if (ge & not2nat[Write]) != 0 {
+	if (ge&not2nat[Write]) != 0 && w.eDir != 0 {
 		switch err := t.walk(w.p, func(fi os.FileInfo) error {
 			p := filepath.Join(w.p, fi.Name())
 			switch err := t.singlewatch(p, w.eDir, ndir, fi); {
-- 
2.43.0


From 7a461daa1578a80654d78e75c1cefca091bb9fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 31/58] fix: report each event of a trigger separately

---
 watcher_trigger.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 984262c..3eda1b4 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -139,10 +139,15 @@ func (t *trg) Close() (err error) {
 	return
 }
 
-// send reported events one by one through chan.
+// send reported events one by one through chan. What the native system combined
+// is sent separately, since not everyone may want all of it.
 func (t *trg) send(evn []event) {
-	for i := range evn {
-		t.c <- &evn[i]
+	for _, ev := range evn {
+		for e := ev.e; e != 0; e &= e - 1 {
+			single := ev
+			single.e = e & -e
+			t.c <- &single
+		}
 	}
 }
 
-- 
2.43.0


From 555780b375953ed973e86529d9245ed7d2865270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 32/58] fix: notice when entries of a watched directory are
 replaced or removed

---
 watcher_kqueue.go  |  4 +++-
 watcher_trigger.go | 27 +++++++++++++++++++++++++--
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/watcher_kqueue.go b/watcher_kqueue.go
index b78c7cb..0ec88b9 100644
--- a/watcher_kqueue.go
+++ b/watcher_kqueue.go
@@ -186,7 +186,9 @@ func init() {
 		// and Create events will be generated and returned for new files.
 		// In case of files, if not requested NoteRename event is reported,
 		// it will be ignored.
-		o = int64(e &^ Create)
+		// Deleting or renaming is always reported, so that the watch does not
+		// stay with a file, which is no longer there.
+		o = int64(e&^Create) | int64(NoteDelete|NoteRename)
 		if (e&Create != 0 && dir) || e&Write != 0 {
 			o = (o &^ int64(Write)) | int64(NoteWrite)
 		}
diff --git a/watcher_trigger.go b/watcher_trigger.go
index 3eda1b4..5654461 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -452,7 +452,8 @@ func (t *trg) process(n interface{}) (evn []event) {
 			}
 		}
 	}
-	if e == Event(0) && (!w.fi.IsDir() || (ge&int64(not2nat[Write])) == 0) {
+	gone := Event(ge)&(not2nat[Remove]|not2nat[Rename]) != 0
+	if e == Event(0) && !gone && (!w.fi.IsDir() || (ge&int64(not2nat[Write])) == 0) {
 		t.Unlock()
 		return
 	}
@@ -462,9 +463,31 @@ func (t *trg) process(n interface{}) (evn []event) {
 	} else {
 		evn = append(evn, t.file(w, n, e)...)
 	}
-	if Event(ge)&(not2nat[Remove]|not2nat[Rename]) != 0 {
+	if gone {
 		t.t.Del(w)
+		evn = append(evn, t.replaced(w.p)...)
 	}
 	t.Unlock()
 	return
 }
+
+// replaced watches the file that took the place of the one that was removed from
+// p, if there is one, and if the directory it is in is watched.
+func (t *trg) replaced(p string) (evn []event) {
+	par, ok := t.pthLkp[filepath.Dir(p)]
+	if !ok || par.eDir == 0 || par.p == p {
+		return
+	}
+	fi, err := os.Lstat(p)
+	if err != nil {
+		return
+	}
+	switch err := t.singlewatch(p, par.eDir, ndir, fi); {
+	case err == errAlreadyWatched:
+	case err != nil:
+		dbgprintf("trg: watching %q failed: %q", p, err)
+	case par.eDir&Create != 0:
+		evn = append(evn, event{p, Create, fi.IsDir(), nil})
+	}
+	return
+}
-- 
2.43.0


From 91e5b20ca0122b8cddd1a68596fcb49f72d87aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 33/58] fix: report the files moved with a directory as what
 they are

---
 watcher_trigger.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 5654461..6508091 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -328,19 +328,15 @@ func (t *trg) dir(w *watched, n interface{}, e, ge Event) (evn []event) {
 		// we have to filter it out explicitly.
 		evn = append(evn, event{w.p, e & ^Write & ^not2nat[Write], true, n})
 		if ge&not2nat[Rename] != 0 {
-			for p := range t.pthLkp {
+			for p, c := range t.pthLkp {
 				if strings.HasPrefix(p, w.p+string(os.PathSeparator)) {
+					ce := decode(int64(not2nat[Rename]), c.eDir|c.eNonDir)
 					if err := t.singleunwatch(p, both); err != nil && err != errNotWatched &&
 						!os.IsNotExist(err) {
 						dbgprintf("trg: failed stop watching moved file (%q): %q\n",
 							p, err)
 					}
-					if (w.eDir|w.eNonDir)&(not2nat[Rename]|Rename) != 0 {
-						evn = append(evn, event{
-							p, (w.eDir | w.eNonDir) & e &^ Write &^ not2nat[Write],
-							w.fi.IsDir(), nil,
-						})
-					}
+					evn = append(evn, event{p, ce, c.fi.IsDir(), nil})
 				}
 			}
 		}
-- 
2.43.0


From 4503cfe3009fe8f0ebba827e736bfb5e88464d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 34/58] fix: report the creation of entries, which cannot be
 watched, only once

---
 watcher_trigger.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 6508091..09a1861 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -94,6 +94,8 @@ type trg struct {
 	// pthLkp is a data structure mapping file names with data about watching
 	// represented by them files/directories.
 	pthLkp map[string]*watched
+	// skipped holds entries of watched directories which cannot be watched.
+	skipped map[string]struct{}
 	// t is a platform dependent implementation of trigger.
 	t trigger
 }
@@ -101,9 +103,10 @@ type trg struct {
 // newWatcher returns new watcher's implementation.
 func newWatcher(c chan<- EventInfo) watcher {
 	t := &trg{
-		s:      make(chan struct{}, 1),
-		pthLkp: make(map[string]*watched, 0),
-		c:      c,
+		s:       make(chan struct{}, 1),
+		pthLkp:  make(map[string]*watched, 0),
+		skipped: make(map[string]struct{}),
+		c:       c,
 	}
 	t.t = newTrigger(t.pthLkp)
 	if err := t.t.Init(); err != nil {
@@ -157,6 +160,10 @@ func (t *trg) singlewatch(p string, e Event, direct mode, fi os.FileInfo) (err e
 	if !ok {
 		if w, err = t.t.NewWatched(p, fi); err != nil {
 			if err == errSkip {
+				if _, ok := t.skipped[p]; ok {
+					return errAlreadyWatched
+				}
+				t.skipped[p] = struct{}{}
 				err = nil
 			}
 			return
@@ -232,6 +239,16 @@ func (t *trg) watch(p string, e Event, fi os.FileInfo) error {
 	return nil
 }
 
+// forget forgets the entries of directory p that were skipped, except for those
+// listed.
+func (t *trg) forget(p string, listed map[string]struct{}) {
+	for q := range t.skipped {
+		if _, ok := listed[q]; !ok && filepath.Dir(q) == p {
+			delete(t.skipped, q)
+		}
+	}
+}
+
 // walk runs f func on each file/dir from p directory.
 func (t *trg) walk(p string, fn func(os.FileInfo) error) error {
 	fp, err := os.Open(p)
@@ -253,6 +270,7 @@ func (t *trg) walk(p string, fn func(os.FileInfo) error) error {
 
 func (t *trg) unwatch(p string, fi os.FileInfo) error {
 	if fi.IsDir() {
+		t.forget(p, nil)
 		for q := range t.pthLkp {
 			if q == p || filepath.Dir(q) != p {
 				continue
@@ -344,8 +362,10 @@ func (t *trg) dir(w *watched, n interface{}, e, ge Event) (evn []event) {
 		return
 	}
 	if (ge&not2nat[Write]) != 0 && w.eDir != 0 {
+		listed := make(map[string]struct{})
 		switch err := t.walk(w.p, func(fi os.FileInfo) error {
 			p := filepath.Join(w.p, fi.Name())
+			listed[p] = struct{}{}
 			switch err := t.singlewatch(p, w.eDir, ndir, fi); {
 			case os.IsNotExist(err) && ((w.eDir & Remove) != 0):
 				evn = append(evn, event{p, Remove, fi.IsDir(), n})
@@ -363,6 +383,7 @@ func (t *trg) dir(w *watched, n interface{}, e, ge Event) (evn []event) {
 		case err != nil:
 			dbgprintf("trg: dir processing failed: %q", err)
 		default:
+			t.forget(w.p, listed)
 		}
 	}
 	return
@@ -461,6 +482,7 @@ func (t *trg) process(n interface{}) (evn []event) {
 	}
 	if gone {
 		t.t.Del(w)
+		t.forget(w.p, nil)
 		evn = append(evn, t.replaced(w.p)...)
 	}
 	t.Unlock()
-- 
2.43.0


From f3cd048d4f0528d65b0bb4ecee1095770f9e5496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 35/58] fix: watch directories for new entries whatever is
 requested for them

---
 watcher_kqueue.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/watcher_kqueue.go b/watcher_kqueue.go
index 0ec88b9..fa17a44 100644
--- a/watcher_kqueue.go
+++ b/watcher_kqueue.go
@@ -184,12 +184,14 @@ func init() {
 		// be registered for a directory. If this event will be reported on dir
 		// which is to be monitored for Create, dir will be rescanned
 		// and Create events will be generated and returned for new files.
+		// New entries have to be found for any other event, too, since these are
+		// only reported for files which are watched.
 		// In case of files, if not requested NoteRename event is reported,
 		// it will be ignored.
 		// Deleting or renaming is always reported, so that the watch does not
 		// stay with a file, which is no longer there.
 		o = int64(e&^Create) | int64(NoteDelete|NoteRename)
-		if (e&Create != 0 && dir) || e&Write != 0 {
+		if dir || e&Write != 0 {
 			o = (o &^ int64(Write)) | int64(NoteWrite)
 		}
 		if e&Rename != 0 {
-- 
2.43.0


From 993876c0df4f289a7ae4d4373643f39c24ae8978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 36/58] fix: bring the old watch back when ending it failed
 half-way, too

---
 watcher_trigger.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 09a1861..44f76c9 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -317,10 +317,10 @@ func (t *trg) Rewatch(p string, olde, e Event) error {
 	}
 	t.Lock()
 	defer t.Unlock()
-	if err = t.unwatch(p, fi); err != nil && err != errNotWatched {
-		return err
+	if err = t.unwatch(p, fi); err == nil || err == errNotWatched {
+		err = t.watch(p, e, fi)
 	}
-	if err = t.watch(p, e, fi); err != nil {
+	if err != nil {
 		if e := t.watch(p, olde, fi); e != nil {
 			dbgprintf("trg: bringing back the watch of %q failed: %q\n", p, e)
 		}
-- 
2.43.0


From b593094ec496070d40ff8b9e16d84b37e092ad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 37/58] fix: keep watching files, which are still needed, when
 changing that fails

---
 watcher_trigger.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 44f76c9..934bb76 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -403,6 +403,7 @@ func (t *trg) singleunwatch(p string, direct mode) error {
 	if !ok {
 		return errNotWatched
 	}
+	eDir, eNonDir := w.eDir, w.eNonDir
 	switch direct {
 	case dir:
 		w.eDir = 0
@@ -411,21 +412,18 @@ func (t *trg) singleunwatch(p string, direct mode) error {
 	case both:
 		w.eDir, w.eNonDir = 0, 0
 	}
-	if err := t.t.Unwatch(w); err != nil {
-		return err
-	}
 	if w.eNonDir|w.eDir != 0 {
-		mod := dir
-		if w.eNonDir != 0 {
-			mod = ndir
-		}
-		if err := t.singlewatch(p, w.eNonDir|w.eDir, mod,
-			w.fi); err != nil && err != errAlreadyWatched {
+		// Watching again replaces the native watch.
+		if err := t.t.Watch(w.fi, w, encode(w.eNonDir|w.eDir, w.fi.IsDir())); err != nil {
+			w.eDir, w.eNonDir = eDir, eNonDir
 			return err
 		}
-	} else {
-		t.t.Del(w)
+		return nil
+	}
+	if err := t.t.Unwatch(w); err != nil {
+		return err
 	}
+	t.t.Del(w)
 	return nil
 }
 
-- 
2.43.0


From ee653eb5c149515e19c62219a4359327fcdace8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 38/58] fix: do not lose the first changes of a directory on
 Windows

---
 watcher_readdcw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index b0dee41..9d851e7 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -80,10 +80,10 @@ func newGrip(cph syscall.Handle, parent *watched, filter uint32) (*grip, error)
 		parent:    parent,
 		ovlapped:  &overlappedEx{},
 	}
+	g.ovlapped.parent = g // the first read may complete before register returns
 	if err := g.register(cph); err != nil {
 		return nil, err
 	}
-	g.ovlapped.parent = g
 	return g, nil
 }
 
-- 
2.43.0


From 988484732f1e9ac04ffd0e281f9c14358b58d83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 39/58] fix: close the handle of a directory that cannot be
 read on Windows

---
 watcher_readdcw.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index 9d851e7..1a7ca92 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -100,11 +100,14 @@ func (g *grip) register(cph syscall.Handle) (err error) {
 	); err != nil {
 		return
 	}
-	if _, err = syscall.CreateIoCompletionPort(g.handle, cph, 0, 0); err != nil {
+	if _, err = syscall.CreateIoCompletionPort(g.handle, cph, 0, 0); err == nil {
+		err = g.readDirChanges()
+	}
+	if err != nil {
 		syscall.CloseHandle(g.handle)
-		return
+		g.handle = syscall.InvalidHandle
 	}
-	return g.readDirChanges()
+	return
 }
 
 // readDirChanges tells the system to store file change information in grip's
-- 
2.43.0


From 31906c4aecf41f67a98da7b581aa3fc639543602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 40/58] fix: report renames of directories on Windows

---
 watcher_readdcw.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index 1a7ca92..a2c64d3 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -170,7 +170,7 @@ type watched struct {
 // newWatched creates a new watched instance. It splits the filter variable into
 // two parts. The first part is responsible for watching all events which can be
 // created for a file in watched directory structure and the second one watches
-// only directory Create/Remove actions. If all operations succeed, the Create
+// only directory Create/Remove/Rename actions. If all operations succeed, the Create
 // message is sent to I/O completion port queue for further processing.
 func newWatched(cph syscall.Handle, filter uint32, recursive bool,
 	path string) (wd *watched, err error) {
@@ -193,7 +193,7 @@ func (wd *watched) recreate(cph syscall.Handle) (err error) {
 	if err = wd.updateGrip(0, cph, filefilter == 0, filefilter); err != nil {
 		return
 	}
-	dirfilter := wd.filter & uint32(FileNotifyChangeDirName|Create|Remove)
+	dirfilter := wd.filter & uint32(FileNotifyChangeDirName|Create|Remove|Rename)
 	if err = wd.updateGrip(1, cph, dirfilter == 0, wd.filter|uint32(dirmarker)); err != nil {
 		return
 	}
-- 
2.43.0


From 82eca15566fdef55cf58f0c9cfb019f54b74e882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 41/58] fix: end reading directories on Windows when they are
 no longer or differently watched

---
 watcher_readdcw.go | 236 ++++++++++++++-------------------------------
 1 file changed, 70 insertions(+), 166 deletions(-)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index a2c64d3..126e74d 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -22,34 +22,25 @@ import (
 // watched directories uses its own buffer for storing events.
 const readBufferSize = 4096
 
-// Since all operations which go through the Windows completion routine are done
-// asynchronously, filter may set one of the constants below. They were defined
-// in order to distinguish whether current folder should be re-registered in
-// ReadDirectoryChangesW function or some control operations need to be executed.
-const (
-	stateRewatch uint32 = 1 << (28 + iota)
-	stateUnwatch
-	stateCPClose
-)
+// stateCPClose is the completion key which tells the loop to finish.
+const stateCPClose uint32 = 1 << 30
 
-// Filter used in current implementation was split into four segments:
+// Filter used in current implementation was split into three segments:
 //   - bits  0-11 store ReadDirectoryChangesW filters,
 //   - bits 12-19 store File notify actions,
-//   - bits 20-27 store notify specific events and flags,
-//   - bits 28-31 store states which are used in loop's FSM.
+//   - bits 20-27 store notify specific events and flags.
 //
 // Constants below are used as masks to retrieve only specific filter parts.
 const (
 	onlyNotifyChanges uint32 = 0x00000FFF
 	onlyNGlobalEvents uint32 = 0x0FF00000
-	onlyMachineStates uint32 = 0xF0000000
 )
 
 // grip represents a single watched directory. It stores the data required by
-// ReadDirectoryChangesW function. Only the filter, recursive, and handle members
-// may by modified by watcher implementation. Rest of the them have to remain
-// constant since they are used by Windows completion routine. This indicates that
-// grip can be removed only when all operations on the file handle are finished.
+// ReadDirectoryChangesW function. Only the handle member may by modified by watcher
+// implementation, which requires the watcher to be locked. Rest of the them have to
+// remain constant since they are used by Windows completion routine. This indicates
+// that grip can be removed only when all operations on the file handle are finished.
 type grip struct {
 	handle    syscall.Handle
 	filter    uint32
@@ -69,9 +60,9 @@ type overlappedEx struct {
 }
 
 // newGrip creates a new file handle that can be used in overlapped operations.
-// Then, the handle is associated with I/O completion port 'cph' and its value
-// is stored in newly created 'grip' object.
-func newGrip(cph syscall.Handle, parent *watched, filter uint32) (*grip, error) {
+// Then, the handle is associated with I/O completion port of the watcher and its
+// value is stored in newly created 'grip' object.
+func newGrip(r *readdcw, parent *watched, filter uint32) (*grip, error) {
 	g := &grip{
 		handle:    syscall.InvalidHandle,
 		filter:    filter,
@@ -81,13 +72,13 @@ func newGrip(cph syscall.Handle, parent *watched, filter uint32) (*grip, error)
 		ovlapped:  &overlappedEx{},
 	}
 	g.ovlapped.parent = g // the first read may complete before register returns
-	if err := g.register(cph); err != nil {
+	if err := g.register(r.cph); err != nil {
 		return nil, err
 	}
+	r.reads[g] = struct{}{}
 	return g, nil
 }
 
-// NOTE : Thread safe
 func (g *grip) register(cph syscall.Handle) (err error) {
 	if g.handle, err = syscall.CreateFile(
 		&g.pathw[0],
@@ -114,13 +105,8 @@ func (g *grip) register(cph syscall.Handle) (err error) {
 // buffer. Directory changes that occur between calls to this function are added
 // to the buffer and then, returned with the next call.
 func (g *grip) readDirChanges() error {
-	handle := syscall.Handle(atomic.LoadUintptr((*uintptr)(&g.handle)))
-	if handle == syscall.InvalidHandle {
-		return nil // Handle was closed.
-	}
-
 	return syscall.ReadDirectoryChanges(
-		handle,
+		g.handle,
 		&g.buffer[0],
 		uint32(unsafe.Sizeof(g.buffer)),
 		g.recursive,
@@ -162,7 +148,6 @@ func encode(filter uint32) uint32 {
 type watched struct {
 	filter    uint32
 	recursive bool
-	count     uint8
 	pathw     []uint16
 	digrip    [2]*grip
 }
@@ -170,9 +155,8 @@ type watched struct {
 // newWatched creates a new watched instance. It splits the filter variable into
 // two parts. The first part is responsible for watching all events which can be
 // created for a file in watched directory structure and the second one watches
-// only directory Create/Remove/Rename actions. If all operations succeed, the Create
-// message is sent to I/O completion port queue for further processing.
-func newWatched(cph syscall.Handle, filter uint32, recursive bool,
+// only directory Create/Remove/Rename actions.
+func newWatched(r *readdcw, filter uint32, recursive bool,
 	path string) (wd *watched, err error) {
 	wd = &watched{
 		filter:    filter,
@@ -181,88 +165,46 @@ func newWatched(cph syscall.Handle, filter uint32, recursive bool,
 	if wd.pathw, err = syscall.UTF16FromString(path); err != nil {
 		return
 	}
-	if err = wd.recreate(cph); err != nil {
-		return
-	}
-	return wd, nil
-}
-
-// TODO : doc
-func (wd *watched) recreate(cph syscall.Handle) (err error) {
-	filefilter := wd.filter &^ uint32(FileNotifyChangeDirName)
-	if err = wd.updateGrip(0, cph, filefilter == 0, filefilter); err != nil {
-		return
-	}
-	dirfilter := wd.filter & uint32(FileNotifyChangeDirName|Create|Remove|Rename)
-	if err = wd.updateGrip(1, cph, dirfilter == 0, wd.filter|uint32(dirmarker)); err != nil {
-		return
+	if filefilter := filter &^ uint32(FileNotifyChangeDirName); filefilter != 0 {
+		if wd.digrip[0], err = newGrip(r, wd, filefilter); err != nil {
+			return nil, err
+		}
 	}
-	wd.filter &^= onlyMachineStates
-	return
-}
-
-// TODO : doc
-func (wd *watched) updateGrip(idx int, cph syscall.Handle, reset bool,
-	newflag uint32) (err error) {
-	if reset {
-		wd.digrip[idx] = nil
-	} else {
-		if wd.digrip[idx] == nil {
-			if wd.digrip[idx], err = newGrip(cph, wd, newflag); err != nil {
-				wd.closeHandle()
-				return
-			}
-		} else {
-			wd.digrip[idx].filter = newflag
-			wd.digrip[idx].recursive = wd.recursive
-			if err = wd.digrip[idx].register(cph); err != nil {
-				wd.closeHandle()
-				return
-			}
+	if filter&uint32(FileNotifyChangeDirName|Create|Remove|Rename) != 0 {
+		if wd.digrip[1], err = newGrip(r, wd, filter|uint32(dirmarker)); err != nil {
+			wd.closeHandle()
+			return nil, err
 		}
-		wd.count++
 	}
-	return
+	return wd, nil
 }
 
 // closeHandle closes handles that are stored in digrip array. Function always
 // tries to close all of the handlers before it exits, even when there are errors
-// returned from the operating system kernel.
+// returned from the operating system kernel. The outstanding reads finish then.
 func (wd *watched) closeHandle() (err error) {
 	for _, g := range wd.digrip {
-		if g == nil {
+		if g == nil || g.handle == syscall.InvalidHandle {
 			continue
 		}
-
-		for {
-			handle := syscall.Handle(atomic.LoadUintptr((*uintptr)(&g.handle)))
-			if handle == syscall.InvalidHandle {
-				break // Already closed.
-			}
-
-			e := syscall.CloseHandle(handle)
-			if e != nil && err == nil {
-				err = e
-			}
-
-			// Set invalid handle even when CloseHandle fails. This will leak
-			// the handle but, since we can't close it anyway, there won't be
-			// any difference.
-			if atomic.CompareAndSwapUintptr((*uintptr)(&g.handle),
-				(uintptr)(handle), (uintptr)(syscall.InvalidHandle)) {
-				break
-			}
+		if e := syscall.CloseHandle(g.handle); e != nil && err == nil {
+			err = e
 		}
+		// Set invalid handle even when CloseHandle fails. This will leak
+		// the handle but, since we can't close it anyway, there won't be
+		// any difference.
+		g.handle = syscall.InvalidHandle
 	}
 	return
 }
 
-// watcher implements Watcher interface. It stores a set of watched directories.
-// All operations which remove watched objects from map `m` must be performed in
-// loop goroutine since these structures are used internally by operating system.
+// watcher implements Watcher interface. It stores a set of watched directories,
+// and of the grips which have a read outstanding: these are used internally by
+// operating system until loop goroutine finds the read to be finished.
 type readdcw struct {
 	sync.Mutex
 	m     map[string]*watched
+	reads map[*grip]struct{}
 	cph   syscall.Handle
 	start bool
 	wg    sync.WaitGroup
@@ -272,9 +214,10 @@ type readdcw struct {
 // NewWatcher creates new non-recursive watcher backed by ReadDirectoryChangesW.
 func newWatcher(c chan<- EventInfo) watcher {
 	r := &readdcw{
-		m:   make(map[string]*watched),
-		cph: syscall.InvalidHandle,
-		c:   c,
+		m:     make(map[string]*watched),
+		reads: make(map[*grip]struct{}),
+		cph:   syscall.InvalidHandle,
+		c:     c,
 	}
 	runtime.SetFinalizer(r, func(r *readdcw) {
 		if r.cph != syscall.InvalidHandle {
@@ -294,9 +237,8 @@ func (r *readdcw) RecursiveWatch(path string, event Event) error {
 	return r.watch(path, event, true)
 }
 
-// watch inserts a directory to the group of watched folders. If watched folder
-// already exists, function tries to rewatch it with new filters(NOT VALID). Moreover,
-// watch starts the main event loop goroutine when called for the first time.
+// watch inserts a directory to the group of watched folders. Moreover, watch
+// starts the main event loop goroutine when called for the first time.
 func (r *readdcw) watch(path string, event Event, recursive bool) error {
 	if event&^(All|fileNotifyChangeAll) != 0 {
 		return errors.New("notify: unknown event")
@@ -305,9 +247,8 @@ func (r *readdcw) watch(path string, event Event, recursive bool) error {
 	r.Lock()
 	defer r.Unlock()
 
-	if wd, ok := r.m[path]; ok {
+	if _, ok := r.m[path]; ok {
 		dbgprint("watch: already exists")
-		wd.filter &^= stateUnwatch
 		return nil
 	}
 
@@ -315,7 +256,7 @@ func (r *readdcw) watch(path string, event Event, recursive bool) error {
 		return err
 	}
 
-	wd, err := newWatched(r.cph, uint32(event), recursive, path)
+	wd, err := newWatched(r, uint32(event), recursive, path)
 	if err != nil {
 		return err
 	}
@@ -338,6 +279,8 @@ func (r *readdcw) lazyinit() (err error) {
 
 		r.cph, r.start = cph, true
 		go r.loop()
+	} else if !r.start {
+		err = errors.New("notify: watcher is being closed")
 	}
 
 	return
@@ -369,34 +312,15 @@ func (r *readdcw) loop() {
 		} else if n != 0 {
 			r.loopevent(n, overEx)
 		}
-		if err = overEx.parent.readDirChanges(); err != nil {
+		r.Lock()
+		if overEx.parent.handle == syscall.InvalidHandle {
+			delete(r.reads, overEx.parent)
+		} else if err = overEx.parent.readDirChanges(); err != nil {
 			// TODO: error handling
+			dbgprintf("reading directory changes failed: %v", err)
+			delete(r.reads, overEx.parent)
 		}
-		r.loopstate(overEx)
-	}
-}
-
-// TODO(pknap) : doc
-func (r *readdcw) loopstate(overEx *overlappedEx) {
-	r.Lock()
-	defer r.Unlock()
-	filter := overEx.parent.parent.filter
-	if filter&onlyMachineStates == 0 {
-		return
-	}
-	if overEx.parent.parent.count--; overEx.parent.parent.count == 0 {
-		switch filter & onlyMachineStates {
-		case stateRewatch:
-			dbgprint("loopstate rewatch")
-			overEx.parent.parent.recreate(r.cph)
-		case stateUnwatch:
-			dbgprint("loopstate unwatch")
-			overEx.parent.parent.closeHandle()
-			delete(r.m, syscall.UTF16ToString(overEx.parent.pathw))
-		case stateCPClose:
-		default:
-			panic(`notify: windows loopstate logic error`)
-		}
+		r.Unlock()
 	}
 }
 
@@ -477,35 +401,32 @@ func (r *readdcw) rewatch(path string, oldevent, newevent uint32, recursive bool
 	if Event(newevent)&^(All|fileNotifyChangeAll) != 0 {
 		return errors.New("notify: unknown event")
 	}
-	var wd *watched
+	var wd, newwd *watched
 	r.Lock()
 	defer r.Unlock()
-	if wd, err = r.nonStateWatchedLocked(path); err != nil {
+	if wd, err = r.watchedLocked(path); err != nil {
 		return
 	}
 	if wd.filter&(onlyNotifyChanges|onlyNGlobalEvents) != oldevent {
 		panic(`notify: windows re-watcher logic error`)
 	}
-	wd.filter = stateRewatch | newevent
-	wd.recursive, recursive = recursive, wd.recursive
-	if err = wd.closeHandle(); err != nil {
-		wd.filter = oldevent
-		wd.recursive = recursive
+	// The old handles are closed last, so that no changes are missed and the
+	// directory is still watched when opening it again fails.
+	if newwd, err = newWatched(r, newevent, recursive, path); err != nil {
 		return
 	}
+	r.m[path] = newwd
+	if e := wd.closeHandle(); e != nil {
+		dbgprintf("rewatch: closing old handles failed: %v", e)
+	}
 	return
 }
 
 // TODO : pknap
-func (r *readdcw) nonStateWatchedLocked(path string) (wd *watched, err error) {
+func (r *readdcw) watchedLocked(path string) (wd *watched, err error) {
 	wd, ok := r.m[path]
 	if !ok || wd == nil {
 		err = errors.New(`notify: ` + path + ` path is unwatched`)
-		return
-	}
-	if wd.filter&onlyMachineStates != 0 {
-		err = errors.New(`notify: another re/unwatching operation in progress`)
-		return
 	}
 	return
 }
@@ -526,28 +447,12 @@ func (r *readdcw) unwatch(path string) (err error) {
 
 	r.Lock()
 	defer r.Unlock()
-	if wd, err = r.nonStateWatchedLocked(path); err != nil {
+	if wd, err = r.watchedLocked(path); err != nil {
 		return
 	}
 
-	wd.filter |= stateUnwatch
-	dbgprint("unwatch: set unwatch state")
-
-	if _, attrErr := syscall.GetFileAttributes(&wd.pathw[0]); attrErr != nil {
-		for _, g := range wd.digrip {
-			if g == nil {
-				continue
-			}
-
-			dbgprint("unwatch: posting")
-			if err = syscall.PostQueuedCompletionStatus(r.cph, 0, 0, (*syscall.Overlapped)(unsafe.Pointer(g.ovlapped))); err != nil {
-				wd.filter &^= stateUnwatch
-				return
-			}
-		}
-	}
-
-	return
+	delete(r.m, path)
+	return wd.closeHandle()
 }
 
 // Close resets the whole watcher object, closes all existing file descriptors,
@@ -558,16 +463,15 @@ func (r *readdcw) Close() (err error) {
 		r.Unlock()
 		return nil
 	}
-	for _, wd := range r.m {
-		wd.filter &^= onlyMachineStates
-		wd.filter |= stateCPClose
+	for path, wd := range r.m {
+		delete(r.m, path)
 		if e := wd.closeHandle(); e != nil && err == nil {
 			err = e
 		}
 	}
 	r.start = false
-	r.Unlock()
 	r.wg.Add(1)
+	r.Unlock()
 	if e := syscall.PostQueuedCompletionStatus(r.cph, 0, stateCPClose, nil); e != nil && err == nil {
 		return e
 	}
-- 
2.43.0


From 7456b377bcebe73a0c69c672eaa5e692cac5ebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 42/58] fix: keep the old watch when relocating it fails on
 Windows

---
 watcher_readdcw.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index 126e74d..88b89fe 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -388,10 +388,10 @@ func (r *readdcw) Rewatch(path string, oldevent, newevent Event) error {
 func (r *readdcw) RecursiveRewatch(oldpath, newpath string, oldevent,
 	newevent Event) error {
 	if oldpath != newpath {
-		if err := r.unwatch(oldpath); err != nil {
+		if err := r.watch(newpath, newevent, true); err != nil {
 			return err
 		}
-		return r.watch(newpath, newevent, true)
+		return r.unwatch(oldpath)
 	}
 	return r.rewatch(newpath, uint32(oldevent), uint32(newevent), true)
 }
-- 
2.43.0


From afa2ebdc0bc8796e29d1ccb978cc562b2d66e230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 43/58] fix: keep watchpoints registered after a directory was
 recreated

A removal handled late dropped the watchpoints registered for the directory,
or the file, which has taken the place of the removed one; and a file created
in place of a directory inherited its watchpoint, so registering the file had
no effect.
---
 tree_nonrecursive.go | 54 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 6583f0b..7041cc9 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -40,7 +40,7 @@ func (t *nonrecursiveTree) dispatch(c <-chan EventInfo) {
 		dbgprintf("dispatching %v on %q", ei.Event(), ei.Path())
 		go func(ei EventInfo) {
 			var nd node
-			var isrec bool
+			var isrec, wasdir bool
 			dir, base := split(ei.Path())
 			fn := func(it node, isbase bool) error {
 				isrec = isrec || it.Watch.IsRecursive()
@@ -64,6 +64,7 @@ func (t *nonrecursiveTree) dispatch(c <-chan EventInfo) {
 			// If leaf watchpoint exists, notify it.
 			if nd, ok := nd.Child[base]; ok {
 				isrec = isrec || nd.Watch.IsRecursive()
+				_, wasdir = nd.Watch[t.rec]
 				nd.Watch.Dispatch(ei, 0)
 			}
 			t.rw.RUnlock()
@@ -71,7 +72,10 @@ func (t *nonrecursiveTree) dispatch(c <-chan EventInfo) {
 			if !isrec || ei.Event()&(Create|Remove) == 0 {
 				return
 			}
-			if ok, err := ei.(isDirer).isDir(); !ok || err != nil {
+			// a recursive watchpoint, or a file which replaced a directory,
+			// the latter needs to be (un)watched.
+			wasdir = wasdir && ei.Event() == Create
+			if ok, err := ei.(isDirer).isDir(); !ok && !wasdir || err != nil {
 				return
 			}
 			t.rec <- ei
@@ -83,17 +87,18 @@ func (t *nonrecursiveTree) dispatch(c <-chan EventInfo) {
 func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 	for ei := range rec {
 		t.rw.Lock()
-		if ei.Event() == Remove {
+		isdir, _ := ei.(isDirer).isDir()
+		if ei.Event() == Remove || !isdir {
 			nd, err := t.root.Get(ei.Path())
 			if err != nil {
 				t.rw.Unlock()
 				continue
 			}
-			t.walkWatchpoint(nd, func(_ Event, nd node) error {
-				t.w.Unwatch(nd.Name)
-				return nil
-			})
-			t.root.Del(ei.Path())
+			t.forget(nd)
+			if !isdir {
+				t.rw.Unlock()
+				continue
+			}
 			// The directory may have been created anew before its removal
 			// was handled, in which case it needs to be watched again.
 			if fi, err := os.Lstat(ei.Path()); err != nil || !fi.IsDir() {
@@ -125,6 +130,39 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 	}
 }
 
+// forget drops watchpoints of nd and the nodes below it which do not exist
+// anymore. The ones which do exist may have been registered anew before the
+// removal was handled, thus only what files inherited from the directories
+// they replaced is dropped.
+func (t *nonrecursiveTree) forget(nd node) {
+	var gone []string
+	nd.Walk(func(nd node) error {
+		fi, err := os.Lstat(nd.Name)
+		if err == nil && fi.IsDir() {
+			return nil
+		}
+		if err == nil {
+			if _, ok := nd.Watch[t.rec]; !ok {
+				return nil
+			}
+			nd.Watch.Del(t.rec, all)
+			if total := nd.Watch.Total(); total != 0 {
+				t.w.Watch(nd.Name, total)
+				return nil
+			}
+		}
+		t.walkWatchpoint(nd, func(_ Event, nd node) error {
+			t.w.Unwatch(nd.Name)
+			return nil
+		})
+		gone = append(gone, nd.Name)
+		return errSkip
+	})
+	for _, name := range gone {
+		t.root.Del(name)
+	}
+}
+
 // watchAdd TODO(rjeczalik)
 func (t *nonrecursiveTree) watchAdd(nd node, c chan<- EventInfo, e Event) eventDiff {
 	if e&recursive != 0 {
-- 
2.43.0


From d8f6437d9a2b8f43da3a7945e0e2af30b0b9d7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:57 +0000
Subject: [PATCH 44/58] fix: fen: skip dangling symlinks

---
 watcher_fen.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/watcher_fen.go b/watcher_fen.go
index 114ec7f..4e7b161 100644
--- a/watcher_fen.go
+++ b/watcher_fen.go
@@ -49,6 +49,16 @@ func (f *fen) Close() (err error) {
 
 // NewWatched implements trigger.
 func (*fen) NewWatched(p string, fi os.FileInfo) (*watched, error) {
+	if fi.Mode()&os.ModeSymlink != 0 {
+		// A symlink which cannot be followed cannot be watched - ignore it
+		// instead of failing.
+		if _, err := os.Stat(p); err != nil {
+			if os.IsNotExist(err) {
+				return nil, errSkip
+			}
+			return nil, err
+		}
+	}
 	return &watched{trgWatched{p: p, fi: fi}}, nil
 }
 
-- 
2.43.0


From 1432787c1ffe1817553aa1b3a03d117b47b4bb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:19 +0000
Subject: [PATCH 45/58] fix: fen: one association per file

---
 watcher_fen_cgo.go | 16 ++++++++++++----
 watcher_trigger.go |  5 ++++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/watcher_fen_cgo.go b/watcher_fen_cgo.go
index 50f289d..b4344cc 100644
--- a/watcher_fen_cgo.go
+++ b/watcher_fen_cgo.go
@@ -69,13 +69,21 @@ func unix2C(sec int64, nsec int64) (C.time_t, C.long) {
 }
 
 func (c *cfen) portAssociate(p int, fo FileObj, e int) (err error) {
-	cfo := C.newFo()
+	// An association is identified by the address of its file object.
+	cfo, ok := c.p2fo[fo.Name]
+	if !ok {
+		cfo = C.newFo()
+		cfo.fo_name = C.CString(fo.Name)
+	}
 	cfo.fo_atime.tv_sec, cfo.fo_atime.tv_nsec = unix2C(fo.Atim.Unix())
 	cfo.fo_mtime.tv_sec, cfo.fo_mtime.tv_nsec = unix2C(fo.Mtim.Unix())
 	cfo.fo_ctime.tv_sec, cfo.fo_ctime.tv_nsec = unix2C(fo.Ctim.Unix())
-	cfo.fo_name = C.CString(fo.Name)
-	c.p2fo[fo.Name] = cfo
-	_, err = C.port_associate(C.int(p), srcFile, C.conv(cfo), C.int(e), nil)
+	if _, err = C.port_associate(C.int(p), srcFile, C.conv(cfo), C.int(e), nil); err == nil {
+		c.p2fo[fo.Name] = cfo
+	} else if !ok {
+		C.free(unsafe.Pointer(cfo.fo_name))
+		C.free(unsafe.Pointer(cfo))
+	}
 	return
 }
 
diff --git a/watcher_trigger.go b/watcher_trigger.go
index 934bb76..6cbed5b 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -179,8 +179,11 @@ func (t *trg) singlewatch(p string, e Event, direct mode, fi os.FileInfo) (err e
 		w.eDir |= e
 		w.eNonDir |= e
 	}
-	if !ok {
+	switch {
+	case !ok:
 		t.t.Record(w)
+	case w.eDir == eDir && w.eNonDir == eNonDir:
+		return errAlreadyWatched
 	}
 	if err = t.t.Watch(fi, w, encode(w.eDir|w.eNonDir, fi.IsDir())); err != nil {
 		if ok {
-- 
2.43.0


From aab7cedd065cfb0e07c652798024470a8153ee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:29 +0000
Subject: [PATCH 46/58] fix: fen: renaming over a watched file removes it

---
 watcher_fen.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/watcher_fen.go b/watcher_fen.go
index 4e7b161..560229b 100644
--- a/watcher_fen.go
+++ b/watcher_fen.go
@@ -91,7 +91,12 @@ func (f *fen) Watched(n interface{}) (*watched, int64, error) {
 	if !ok {
 		return nil, 0, errNotWatched
 	}
-	return w, int64(pe.PortevEvents), nil
+	ge := int64(pe.PortevEvents)
+	if ge&int64(FileRenameTo) != 0 {
+		// A different file took the name, thus the one watched is gone.
+		ge |= int64(FileDelete)
+	}
+	return w, ge, nil
 }
 
 // init initializes FEN.
-- 
2.43.0


From 448dccdfdb9293d12e563deb1e1c635893b49cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:44 +0000
Subject: [PATCH 47/58] fix: fen: find new entries of a directory for every
 event

---
 watcher_fen.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/watcher_fen.go b/watcher_fen.go
index 560229b..4852963 100644
--- a/watcher_fen.go
+++ b/watcher_fen.go
@@ -141,12 +141,14 @@ func (f *fen) IsStop(n interface{}, err error) bool {
 func init() {
 	encode = func(e Event, dir bool) (o int64) {
 		// Create event is not supported by FEN. Instead FileModified event will
-		// be registered. If this event will be reported on dir which is to be
-		// monitored for Create, dir will be rescanned and Create events will
-		// be generated and returned for new files. In case of files,
-		// if not requested FileModified event is reported, it will be ignored.
+		// be registered for a directory. If this event will be reported on dir
+		// which is to be monitored for Create, dir will be rescanned and Create
+		// events will be generated and returned for new files. New entries have
+		// to be found for any other event, too, since these are only reported
+		// for files which are watched. In case of files, if not requested
+		// FileModified event is reported, it will be ignored.
 		o = int64(e &^ Create)
-		if (e&Create != 0 && dir) || e&Write != 0 {
+		if dir || e&Write != 0 {
 			o = (o &^ int64(Write)) | int64(FileModified)
 		}
 		// Following events are 'exception events' and as such cannot be requested
-- 
2.43.0


From 8c2bcc932ee969cbf00fc3df9f1d9d2a759427ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:13 +0000
Subject: [PATCH 48/58] fix: fen: no event for what was reported when an event
 set shrinks

---
 watcher_fen.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/watcher_fen.go b/watcher_fen.go
index 4852963..3f2f029 100644
--- a/watcher_fen.go
+++ b/watcher_fen.go
@@ -35,6 +35,8 @@ type fen struct {
 // watched is a data structure representing watched file/directory.
 type watched struct {
 	trgWatched
+	// last describes the file as it was when last associated.
+	last os.FileInfo
 }
 
 // Stop implements trigger.
@@ -59,7 +61,7 @@ func (*fen) NewWatched(p string, fi os.FileInfo) (*watched, error) {
 			return nil, err
 		}
 	}
-	return &watched{trgWatched{p: p, fi: fi}}, nil
+	return &watched{trgWatched: trgWatched{p: p, fi: fi}}, nil
 }
 
 // Record implements trigger.
@@ -120,7 +122,16 @@ func (f *fen) Unwatch(w *watched) error {
 
 // Watch implements trigger.
 func (f *fen) Watch(fi os.FileInfo, w *watched, e int64) error {
-	return f.cf.portAssociate(f.p, fi2fo(fi, w.p), int(e))
+	if fi == w.fi && w.last != nil {
+		// An event is reported if the file has changed since, which must not
+		// be for what was reported already.
+		fi = w.last
+	}
+	if err := f.cf.portAssociate(f.p, fi2fo(fi, w.p), int(e)); err != nil {
+		return err
+	}
+	w.last = fi
+	return nil
 }
 
 // Wait implements trigger.
-- 
2.43.0


From f6993e0792c3424ff572a78dc98f9c5620df99b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:50 +0000
Subject: [PATCH 49/58] fix: fen: do not read file objects which were freed

---
 watcher_fen.go     |  1 +
 watcher_fen_cgo.go | 52 +++++++++++++++++++++++++++++++---------------
 2 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/watcher_fen.go b/watcher_fen.go
index 3f2f029..c22c59b 100644
--- a/watcher_fen.go
+++ b/watcher_fen.go
@@ -72,6 +72,7 @@ func (f *fen) Record(w *watched) {
 // Del implements trigger.
 func (f *fen) Del(w *watched) {
 	delete(f.pthLkp, w.p)
+	f.cf.forget(w.p)
 }
 
 func inter2pe(n interface{}) PortEvent {
diff --git a/watcher_fen_cgo.go b/watcher_fen_cgo.go
index b4344cc..f4d123e 100644
--- a/watcher_fen_cgo.go
+++ b/watcher_fen_cgo.go
@@ -13,10 +13,10 @@ package notify
 // struct file_obj* newFo() { return (struct file_obj*) malloc(sizeof(struct file_obj)); }
 // port_event_t* newPe() { return (port_event_t*) malloc(sizeof(port_event_t)); }
 // uintptr_t conv(struct file_obj* fo) { return (uintptr_t) fo; }
-// struct file_obj* dconv(uintptr_t fo) { return (struct file_obj*) fo; }
 import "C"
 
 import (
+	"sync"
 	"syscall"
 	"unsafe"
 )
@@ -55,12 +55,18 @@ type FileObj struct {
 type cfen struct {
 	p2pe map[string]*C.port_event_t
 	p2fo map[string]*C.struct_file_obj
+	// fo2p maps file objects to their names. Events are read while
+	// associations change, thus a file object of an event may be gone already.
+	fo2p map[C.uintptr_t]string
+	mu   *sync.Mutex // protects fo2p
 }
 
 func newCfen() cfen {
 	return cfen{
 		p2pe: make(map[string]*C.port_event_t),
 		p2fo: make(map[string]*C.struct_file_obj),
+		fo2p: make(map[C.uintptr_t]string),
+		mu:   new(sync.Mutex),
 	}
 }
 
@@ -74,15 +80,16 @@ func (c *cfen) portAssociate(p int, fo FileObj, e int) (err error) {
 	if !ok {
 		cfo = C.newFo()
 		cfo.fo_name = C.CString(fo.Name)
+		c.p2fo[fo.Name] = cfo
+		c.mu.Lock()
+		c.fo2p[C.conv(cfo)] = fo.Name
+		c.mu.Unlock()
 	}
 	cfo.fo_atime.tv_sec, cfo.fo_atime.tv_nsec = unix2C(fo.Atim.Unix())
 	cfo.fo_mtime.tv_sec, cfo.fo_mtime.tv_nsec = unix2C(fo.Mtim.Unix())
 	cfo.fo_ctime.tv_sec, cfo.fo_ctime.tv_nsec = unix2C(fo.Ctim.Unix())
-	if _, err = C.port_associate(C.int(p), srcFile, C.conv(cfo), C.int(e), nil); err == nil {
-		c.p2fo[fo.Name] = cfo
-	} else if !ok {
-		C.free(unsafe.Pointer(cfo.fo_name))
-		C.free(unsafe.Pointer(cfo))
+	if _, err = C.port_associate(C.int(p), srcFile, C.conv(cfo), C.int(e), nil); err != nil && !ok {
+		c.forget(fo.Name)
 	}
 	return
 }
@@ -93,24 +100,37 @@ func (c *cfen) portDissociate(port int, fo FileObj) (err error) {
 		return errNotWatched
 	}
 	_, err = C.port_dissociate(C.int(port), srcFile, C.conv(cfo))
+	c.forget(fo.Name)
+	return
+}
+
+// forget releases the file object of name, if there is one. It must not be
+// associated anymore.
+func (c *cfen) forget(name string) {
+	cfo, ok := c.p2fo[name]
+	if !ok {
+		return
+	}
+	c.mu.Lock()
+	delete(c.fo2p, C.conv(cfo))
+	c.mu.Unlock()
+	delete(c.p2fo, name)
 	C.free(unsafe.Pointer(cfo.fo_name))
 	C.free(unsafe.Pointer(cfo))
-	delete(c.p2fo, fo.Name)
-	return
 }
 
 const srcAlert = C.PORT_SOURCE_ALERT
 const srcFile = C.PORT_SOURCE_FILE
 const alertSet = C.PORT_ALERT_SET
 
-func cfo2fo(cfo *C.struct_file_obj) *FileObj {
+func (c *cfen) cfo2fo(cfo C.uintptr_t) *FileObj {
 	// Currently remaining attributes are not used.
-	if cfo == nil {
+	if cfo == 0 {
 		return nil
 	}
-	var fo FileObj
-	fo.Name = C.GoString(cfo.fo_name)
-	return &fo
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return &FileObj{Name: c.fo2p[cfo]}
 }
 
 func (c *cfen) portGet(port int, pe *PortEvent) (err error) {
@@ -121,7 +141,7 @@ func (c *cfen) portGet(port int, pe *PortEvent) (err error) {
 	}
 	pe.PortevEvents, pe.PortevSource, pe.PortevPad =
 		int(cpe.portev_events), uint8(cpe.portev_source), uint8(cpe.portev_pad)
-	pe.PortevObject = cfo2fo(C.dconv(cpe.portev_object))
+	pe.PortevObject = c.cfo2fo(cpe.portev_object)
 	pe.PortevUser = uintptr(cpe.portev_user)
 	C.free(unsafe.Pointer(cpe))
 	return
@@ -139,12 +159,10 @@ func (c *cfen) portAlert(p int) (err error) {
 
 func (c *cfen) free() {
 	for i := range c.p2fo {
-		C.free(unsafe.Pointer(c.p2fo[i].fo_name))
-		C.free(unsafe.Pointer(c.p2fo[i]))
+		c.forget(i)
 	}
 	for i := range c.p2pe {
 		C.free(unsafe.Pointer(c.p2pe[i]))
 	}
-	c.p2fo = make(map[string]*C.struct_file_obj)
 	c.p2pe = make(map[string]*C.port_event_t)
 }
-- 
2.43.0


From 9e03120b98e50c2cde7535303ea45707a26b59c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:32 +0000
Subject: [PATCH 50/58] fix: fen: stop watching files which have an event to
 handle

---
 watcher_fen.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/watcher_fen.go b/watcher_fen.go
index c22c59b..c06feb8 100644
--- a/watcher_fen.go
+++ b/watcher_fen.go
@@ -118,7 +118,12 @@ func fi2fo(fi os.FileInfo, p string) FileObj {
 
 // Unwatch implements trigger.
 func (f *fen) Unwatch(w *watched) error {
-	return f.cf.portDissociate(f.p, FileObj{Name: w.p})
+	err := f.cf.portDissociate(f.p, FileObj{Name: w.p})
+	if err == syscall.ENOENT {
+		// An event ends the association; this one has not been handled yet.
+		err = nil
+	}
+	return err
 }
 
 // Watch implements trigger.
-- 
2.43.0


From 643c3d10b056ccd8549d09081876890dd8049efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:13 +0000
Subject: [PATCH 51/58] fix: fen: do not keep files which are gone by the time
 their event is handled

---
 watcher_trigger.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 6cbed5b..fe61480 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -461,13 +461,14 @@ func (t *trg) process(n interface{}) (evn []event) {
 
 	e := decode(ge, w.eDir|w.eNonDir)
 	if ge&int64(not2nat[Remove]|not2nat[Rename]) == 0 {
-		switch fi, err := os.Stat(w.p); {
-		case err != nil:
-		default:
-			if err = t.t.Watch(fi, w, encode(w.eDir|w.eNonDir, fi.IsDir())); err != nil {
-				dbgprintf("trg: %q is no longer watched: %q", w.p, err)
-				t.t.Del(w)
-			}
+		fi, err := os.Stat(w.p)
+		if err != nil {
+			// Gone by now, what is found out by trying to watch it.
+			fi = w.fi
+		}
+		if err = t.t.Watch(fi, w, encode(w.eDir|w.eNonDir, fi.IsDir())); err != nil {
+			dbgprintf("trg: %q is no longer watched: %q", w.p, err)
+			t.t.Del(w)
 		}
 	}
 	gone := Event(ge)&(not2nat[Remove]|not2nat[Rename]) != 0
-- 
2.43.0


From c0aeb50600e71f3203cbc758d143483b7c7eb12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:23 +0000
Subject: [PATCH 52/58] fix: no Create for a symlink whose target was removed

---
 watcher_trigger.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index fe61480..3eaa749 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -485,15 +485,16 @@ func (t *trg) process(n interface{}) (evn []event) {
 	if gone {
 		t.t.Del(w)
 		t.forget(w.p, nil)
-		evn = append(evn, t.replaced(w.p)...)
+		evn = append(evn, t.replaced(w)...)
 	}
 	t.Unlock()
 	return
 }
 
-// replaced watches the file that took the place of the one that was removed from
-// p, if there is one, and if the directory it is in is watched.
-func (t *trg) replaced(p string) (evn []event) {
+// replaced watches the file that took the place of the one that w was for, if
+// there is one, and if the directory it is in is watched.
+func (t *trg) replaced(w *watched) (evn []event) {
+	p := w.p
 	par, ok := t.pthLkp[filepath.Dir(p)]
 	if !ok || par.eDir == 0 || par.p == p {
 		return
@@ -506,6 +507,8 @@ func (t *trg) replaced(p string) (evn []event) {
 	case err == errAlreadyWatched:
 	case err != nil:
 		dbgprintf("trg: watching %q failed: %q", p, err)
+	case fi.Mode()&os.ModeSymlink != 0 && os.SameFile(fi, w.fi):
+		// Only what the symlink led to is gone.
 	case par.eDir&Create != 0:
 		evn = append(evn, event{p, Create, fi.IsDir(), nil})
 	}
-- 
2.43.0


From 9016c293e0740fe5a86a0c4b5b6f0113cd2c9a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:23 +0000
Subject: [PATCH 53/58] fix: fen: no event for a symlink when it is first
 watched

---
 watcher_fen.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/watcher_fen.go b/watcher_fen.go
index c06feb8..a0ca8cf 100644
--- a/watcher_fen.go
+++ b/watcher_fen.go
@@ -133,6 +133,13 @@ func (f *fen) Watch(fi os.FileInfo, w *watched, e int64) error {
 		// be for what was reported already.
 		fi = w.last
 	}
+	if fi.Mode()&os.ModeSymlink != 0 {
+		// What it leads to is watched, so it has to be compared with that.
+		var err error
+		if fi, err = os.Stat(w.p); err != nil {
+			return err
+		}
+	}
 	if err := f.cf.portAssociate(f.p, fi2fo(fi, w.p), int(e)); err != nil {
 		return err
 	}
-- 
2.43.0


From c87efa4a66ddc105b471c8fc3291542501af7fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:07 +0000
Subject: [PATCH 54/58] fix: release FSEvents streams which are not used any
 longer

---
 watcher_fsevents_cgo.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/watcher_fsevents_cgo.go b/watcher_fsevents_cgo.go
index 7cf7d71..b3b0fc5 100644
--- a/watcher_fsevents_cgo.go
+++ b/watcher_fsevents_cgo.go
@@ -145,6 +145,7 @@ func (s *stream) Start() error {
 	C.FSEventStreamSetDispatchQueue(ref, q)
 	if C.FSEventStreamStart(ref) == C.Boolean(0) {
 		C.FSEventStreamInvalidate(ref)
+		C.FSEventStreamRelease(ref)
 		return errStart
 	}
 	s.ref = ref
@@ -158,6 +159,7 @@ func (s *stream) Stop() {
 	}
 	C.FSEventStreamStop(s.ref)
 	C.FSEventStreamInvalidate(s.ref)
+	C.FSEventStreamRelease(s.ref)
 	s.ref = nilstream
 	streamFuncs.delete(s.info)
 }
-- 
2.43.0


From ce4fc01ba28d4147d5244535e5bb297863780127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:13 +0000
Subject: [PATCH 55/58] fix: forget the callback of a FSEvents stream which
 failed to start

---
 watcher_fsevents_cgo.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/watcher_fsevents_cgo.go b/watcher_fsevents_cgo.go
index b3b0fc5..c2e67ac 100644
--- a/watcher_fsevents_cgo.go
+++ b/watcher_fsevents_cgo.go
@@ -140,12 +140,14 @@ func (s *stream) Start() error {
 	ctx := C.FSEventStreamContext{}
 	ref := C.EventStreamCreate(&ctx, C.uintptr_t(s.info), path, C.FSEventStreamEventId(atomic.LoadUint64(&since)), latency, flags)
 	if ref == nilstream {
+		streamFuncs.delete(s.info)
 		return errCreate
 	}
 	C.FSEventStreamSetDispatchQueue(ref, q)
 	if C.FSEventStreamStart(ref) == C.Boolean(0) {
 		C.FSEventStreamInvalidate(ref)
 		C.FSEventStreamRelease(ref)
+		streamFuncs.delete(s.info)
 		return errStart
 	}
 	s.ref = ref
-- 
2.43.0


From 801e1016e67ba6c163202d24d02019e99662c581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:13 +0000
Subject: [PATCH 56/58] fix: kqueue: notice what happened to a file between its
 open and its watch

---
 watcher_kqueue.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/watcher_kqueue.go b/watcher_kqueue.go
index fa17a44..470c631 100644
--- a/watcher_kqueue.go
+++ b/watcher_kqueue.go
@@ -43,6 +43,8 @@ type watched struct {
 	trgWatched
 	// fd is a file descriptor for watched file/directory.
 	fd int
+	// armed tells that the kernel has been asked for events before.
+	armed bool
 }
 
 // Stop implements trigger.
@@ -145,8 +147,26 @@ func (k *kq) Watch(fi os.FileInfo, w *watched, e int64) (err error) {
 		syscall.EV_ADD|syscall.EV_CLEAR)
 	kevn[0].Fflags = uint32(e)
 
-	_, err = syscall.Kevent(k.fd, kevn[:], nil, nil)
-	return
+	if _, err = syscall.Kevent(k.fd, kevn[:], nil, nil); err != nil || w.armed {
+		return
+	}
+	w.armed = true
+	// What happened to the file before is not reported, so make sure that it
+	// is still there.
+	var opened syscall.Stat_t
+	if err = syscall.Fstat(w.fd, &opened); err != nil {
+		return
+	}
+	there, err := os.Stat(w.p)
+	if err != nil {
+		return
+	}
+	link := w.fi.Mode()&os.ModeSymlink != 0
+	if st, ok := there.Sys().(*syscall.Stat_t); ok && (st.Dev != opened.Dev || st.Ino != opened.Ino) ||
+		!link && there.IsDir() != w.fi.IsDir() {
+		return syscall.ENOENT
+	}
+	return nil
 }
 
 // Wait implements trigger.
-- 
2.43.0


From e160fa4171bec4af2358e04b72c9825ab8835407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:13 +0000
Subject: [PATCH 57/58] fix: fen: ignore events of associations which were
 replaced

---
 watcher_fen.go     |  3 ++-
 watcher_fen_cgo.go | 39 ++++++++++++++++++++++++++++-----------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/watcher_fen.go b/watcher_fen.go
index a0ca8cf..ac878b5 100644
--- a/watcher_fen.go
+++ b/watcher_fen.go
@@ -91,7 +91,8 @@ func (f *fen) Watched(n interface{}) (*watched, int64, error) {
 		panic(fmt.Sprintf("fen: type should be *FileObj, %T instead", fo))
 	}
 	w, ok := f.pthLkp[fo.Name]
-	if !ok {
+	if !ok || !f.cf.current(fo) {
+		// The file was unwatched, and maybe watched again, since.
 		return nil, 0, errNotWatched
 	}
 	ge := int64(pe.PortevEvents)
diff --git a/watcher_fen_cgo.go b/watcher_fen_cgo.go
index f4d123e..58f18c7 100644
--- a/watcher_fen_cgo.go
+++ b/watcher_fen_cgo.go
@@ -13,6 +13,9 @@ package notify
 // struct file_obj* newFo() { return (struct file_obj*) malloc(sizeof(struct file_obj)); }
 // port_event_t* newPe() { return (port_event_t*) malloc(sizeof(port_event_t)); }
 // uintptr_t conv(struct file_obj* fo) { return (uintptr_t) fo; }
+// int associate(int port, struct file_obj* fo, int events, uintptr_t user) {
+//	return port_associate(port, PORT_SOURCE_FILE, (uintptr_t) fo, events, (void*) user);
+// }
 import "C"
 
 import (
@@ -50,22 +53,27 @@ type FileObj struct {
 	Ctim syscall.Timespec // Ctim is an equivalent of fo_ctime.
 	Pad  [3]uintptr       // Pad is an equivalent of fo_pad.
 	Name string           // Name is an equivalent of fo_name.
+	id   uintptr          // id is the number of the association.
 }
 
 type cfen struct {
 	p2pe map[string]*C.port_event_t
 	p2fo map[string]*C.struct_file_obj
-	// fo2p maps file objects to their names. Events are read while
-	// associations change, thus a file object of an event may be gone already.
-	fo2p map[C.uintptr_t]string
-	mu   *sync.Mutex // protects fo2p
+	p2id map[string]uintptr
+	// id2p maps associations to names. Events are read while associations
+	// change, thus the file object of an event may be gone already, and its
+	// address may be used for a different one.
+	id2p map[uintptr]string
+	last uintptr
+	mu   *sync.Mutex // protects id2p
 }
 
 func newCfen() cfen {
 	return cfen{
 		p2pe: make(map[string]*C.port_event_t),
 		p2fo: make(map[string]*C.struct_file_obj),
-		fo2p: make(map[C.uintptr_t]string),
+		p2id: make(map[string]uintptr),
+		id2p: make(map[uintptr]string),
 		mu:   new(sync.Mutex),
 	}
 }
@@ -81,14 +89,16 @@ func (c *cfen) portAssociate(p int, fo FileObj, e int) (err error) {
 		cfo = C.newFo()
 		cfo.fo_name = C.CString(fo.Name)
 		c.p2fo[fo.Name] = cfo
+		c.last++
+		c.p2id[fo.Name] = c.last
 		c.mu.Lock()
-		c.fo2p[C.conv(cfo)] = fo.Name
+		c.id2p[c.last] = fo.Name
 		c.mu.Unlock()
 	}
 	cfo.fo_atime.tv_sec, cfo.fo_atime.tv_nsec = unix2C(fo.Atim.Unix())
 	cfo.fo_mtime.tv_sec, cfo.fo_mtime.tv_nsec = unix2C(fo.Mtim.Unix())
 	cfo.fo_ctime.tv_sec, cfo.fo_ctime.tv_nsec = unix2C(fo.Ctim.Unix())
-	if _, err = C.port_associate(C.int(p), srcFile, C.conv(cfo), C.int(e), nil); err != nil && !ok {
+	if _, err = C.associate(C.int(p), cfo, C.int(e), C.uintptr_t(c.p2id[fo.Name])); err != nil && !ok {
 		c.forget(fo.Name)
 	}
 	return
@@ -112,8 +122,9 @@ func (c *cfen) forget(name string) {
 		return
 	}
 	c.mu.Lock()
-	delete(c.fo2p, C.conv(cfo))
+	delete(c.id2p, c.p2id[name])
 	c.mu.Unlock()
+	delete(c.p2id, name)
 	delete(c.p2fo, name)
 	C.free(unsafe.Pointer(cfo.fo_name))
 	C.free(unsafe.Pointer(cfo))
@@ -123,14 +134,20 @@ const srcAlert = C.PORT_SOURCE_ALERT
 const srcFile = C.PORT_SOURCE_FILE
 const alertSet = C.PORT_ALERT_SET
 
-func (c *cfen) cfo2fo(cfo C.uintptr_t) *FileObj {
+func (c *cfen) cfo2fo(cfo C.uintptr_t, id uintptr) *FileObj {
 	// Currently remaining attributes are not used.
 	if cfo == 0 {
 		return nil
 	}
 	c.mu.Lock()
 	defer c.mu.Unlock()
-	return &FileObj{Name: c.fo2p[cfo]}
+	return &FileObj{Name: c.id2p[id], id: id}
+}
+
+// current tells if an event with fo comes from the association there is now.
+func (c *cfen) current(fo *FileObj) bool {
+	id, ok := c.p2id[fo.Name]
+	return ok && id == fo.id
 }
 
 func (c *cfen) portGet(port int, pe *PortEvent) (err error) {
@@ -141,8 +158,8 @@ func (c *cfen) portGet(port int, pe *PortEvent) (err error) {
 	}
 	pe.PortevEvents, pe.PortevSource, pe.PortevPad =
 		int(cpe.portev_events), uint8(cpe.portev_source), uint8(cpe.portev_pad)
-	pe.PortevObject = c.cfo2fo(cpe.portev_object)
 	pe.PortevUser = uintptr(cpe.portev_user)
+	pe.PortevObject = c.cfo2fo(cpe.portev_object, pe.PortevUser)
 	C.free(unsafe.Pointer(cpe))
 	return
 }
-- 
2.43.0


From dd27213a8ee74cb285b961cde9dcb0795e38330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:13 +0000
Subject: [PATCH 58/58] fix: fen: use the kind of the file which is associated

---
 watcher_fen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/watcher_fen.go b/watcher_fen.go
index ac878b5..7fb4b43 100644
--- a/watcher_fen.go
+++ b/watcher_fen.go
@@ -145,6 +145,9 @@ func (f *fen) Watch(fi os.FileInfo, w *watched, e int64) error {
 		return err
 	}
 	w.last = fi
+	if w.fi.Mode()&os.ModeSymlink == 0 {
+		w.fi = fi // a different file may be there by now
+	}
 	return nil
 }
 
-- 
2.43.0

