package simk

import "runtime"

// In-memory file system with a volatile view (what system calls see) and an
// operation log from which the state left by a power loss is rebuilt.

type dirent struct {
	name string
	ino  *inode
}

type inode struct {
	ino    uint64
	kind   byte // f d l c
	mode   uint32
	mtime  int64
	data   []byte
	ents   []dirent
	parent *inode
	target string
	dev    string // for kind c
	nlink  int
}

// fsop is one logged mutation, in order.
type fsop struct {
	kind   byte // c create, u unlink, r rename, w write, t truncate, m mtime, k link
	dir    uint64
	name   string
	dir2   uint64
	name2  string
	ino    uint64
	ikind  byte
	mode   uint32
	off    int64
	data   []byte
	mtime  int64
	synced bool
}

var (
	root    *inode
	nextIno uint64 = 2
	fslog   []fsop
	logOn   bool
	inodes  []*inode // by number
)

func newInode(kind byte, mode uint32) *inode {
	n := &inode{ino: nextIno, kind: kind, mode: mode, mtime: wallNow(), nlink: 1}
	nextIno++
	for uint64(len(inodes)) <= n.ino {
		inodes = append(inodes, nil)
	}
	inodes[n.ino] = n
	return n
}

func wallNow() int64 {
	return wallBase + runtime.SimNow() + runtime.SimWallOffset()
}

func fsInit() {
	root = newInode('d', 0o755)
	root.parent = root
}

func (d *inode) lookup(name string) *inode {
	for i := range d.ents {
		if d.ents[i].name == name {
			return d.ents[i].ino
		}
	}
	return nil
}

func (d *inode) link(name string, n *inode) {
	d.ents = append(d.ents, dirent{name, n})
	if n.kind == 'd' {
		n.parent = d
	}
}

func (d *inode) unlink(name string) {
	for i := range d.ents {
		if d.ents[i].name == name {
			d.ents = append(d.ents[:i:i], d.ents[i+1:]...)
			return
		}
	}
}

func logop(o fsop) {
	if logOn {
		fslog = append(fslog, o)
	}
}

func splitPath(p string) []string {
	var r []string
	i := 0
	for i < len(p) {
		for i < len(p) && p[i] == '/' {
			i++
		}
		j := i
		for j < len(p) && p[j] != '/' {
			j++
		}
		if j > i {
			r = append(r, p[i:j])
		}
		i = j
	}
	return r
}

// walk resolves path from base. With parentOnly it returns the directory that
// holds the last element and that element's name.
func walk(base *inode, path string, follow, parentOnly bool) (dir *inode, name string, n *inode, errno uintptr) {
	return walkDepth(base, path, follow, parentOnly, 0)
}

func walkDepth(base *inode, path string, follow, parentOnly bool, depth int) (dir *inode, name string, n *inode, errno uintptr) {
	if depth > 20 {
		return nil, "", nil, ELOOP
	}
	if path == "" {
		return nil, "", nil, ENOENT
	}
	if len(path) > 4095 {
		return nil, "", nil, ENAMETOOLONG
	}
	cur := base
	if path[0] == '/' {
		cur = root
	}
	parts := splitPath(path)
	trailing := path[len(path)-1] == '/'
	if len(parts) == 0 {
		return cur, ".", cur, 0
	}
	for i, name := range parts {
		last := i == len(parts)-1
		if cur.kind != 'd' {
			return nil, "", nil, ENOTDIR
		}
		if cur.mode&0o100 == 0 {
			return nil, "", nil, EACCES
		}
		if len(name) > 255 {
			return nil, "", nil, ENAMETOOLONG
		}
		var next *inode
		switch name {
		case ".":
			next = cur
		case "..":
			next = cur.parent
		default:
			next = cur.lookup(name)
		}
		if last {
			if next != nil && next.kind == 'l' && (follow || trailing) {
				return walkDepth(cur, next.target, follow, parentOnly, depth+1)
			}
			if next != nil && trailing && next.kind != 'd' {
				return nil, "", nil, ENOTDIR
			}
			if next == nil {
				return cur, name, nil, ENOENT
			}
			return cur, name, next, 0
		}
		if next == nil {
			return nil, "", nil, ENOENT
		}
		if next.kind == 'l' {
			_, _, t, e := walkDepth(cur, next.target, true, false, depth+1)
			if e != 0 {
				return nil, "", nil, e
			}
			next = t
		}
		cur = next
	}
	return nil, "", nil, ENOENT
}

func (n *inode) path() string {
	if n == root {
		return "/"
	}
	s := ""
	for c := n; c != root && c.parent != nil; c = c.parent {
		nm := "?"
		for _, e := range c.parent.ents {
			if e.ino == c {
				nm = e.name
			}
		}
		s = "/" + nm + s
	}
	return s
}

// fsSeed installs one node of the initial image, creating missing parents.
func fsSeed(path string, kind byte, mode uint32, mtime int64, content string) {
	parts := splitPath(path)
	cur := root
	for i, name := range parts {
		n := cur.lookup(name)
		if i == len(parts)-1 {
			if n != nil && kind == 'd' && n.kind == 'd' {
				n.mode = mode
				n.mtime = mtime
				return
			}
			if n != nil {
				cur.unlink(name)
			}
			n = newInode(kind, mode)
			n.mtime = mtime
			switch kind {
			case 'f':
				n.data = []byte(content)
			case 'l':
				n.target = content
			case 'c':
				n.dev = content
			}
			cur.link(name, n)
			return
		}
		if n == nil {
			n = newInode('d', 0o755)
			n.mtime = mtime
			cur.link(name, n)
		}
		for n.kind == 'l' {
			_, _, t, e := walk(cur, n.target, true, false)
			if e != 0 {
				bug("seed through a dangling link")
			}
			n = t
		}
		cur = n
	}
	if len(parts) == 0 {
		root.mode = mode
	}
}

// fsPut writes a file from outside the program (an editor, another process).
func fsPut(path, content string, mode uint32) {
	dir, name, n, e := walk(root, path, true, false)
	if n == nil {
		if dir == nil {
			fsSeed(path, 'f', mode, wallNow(), content)
			return
		}
		_ = e
		n = newInode('f', mode)
		dir.link(name, n)
		dir.mtime = wallNow()
		logop(fsop{kind: 'c', dir: dir.ino, name: name, ino: n.ino, ikind: 'f', mode: mode, mtime: n.mtime, synced: true})
	}
	n.data = []byte(content)
	n.mtime = wallNow()
	logop(fsop{kind: 't', ino: n.ino, synced: true})
	logop(fsop{kind: 'w', ino: n.ino, data: []byte(content), mtime: n.mtime, synced: true})
}

func fsRemovePath(path string) {
	dir, name, n, _ := walk(root, path, false, true)
	if n == nil {
		return
	}
	dir.unlink(name)
	logop(fsop{kind: 'u', dir: dir.ino, name: name, synced: true})
}

func fsRenamePath(a, b string) {
	d1, n1, x, _ := walk(root, a, false, true)
	d2, n2, _, _ := walk(root, b, false, true)
	if x == nil || d2 == nil {
		return
	}
	fsRename(d1, n1, d2, n2, x)
}

// onTmp says whether d belongs to /tmp, which is a file system of its own.
func onTmp(d *inode) bool {
	for ; d != nil && d != root; d = d.parent {
		if d.parent == root {
			for i := range root.ents {
				if root.ents[i].ino == d {
					return root.ents[i].name == "tmp"
				}
			}
		}
	}
	return false
}

func fsRename(d1 *inode, n1 string, d2 *inode, n2 string, x *inode) {
	d1.unlink(n1)
	d2.unlink(n2)
	d2.link(n2, x)
	d1.mtime, d2.mtime = wallNow(), wallNow()
	logop(fsop{kind: 'r', dir: d1.ino, name: n1, dir2: d2.ino, name2: n2, ino: x.ino})
}

func (n *inode) writeAt(b []byte, off int64) {
	end := off + int64(len(b))
	if end > int64(len(n.data)) {
		nd := make([]byte, end)
		copy(nd, n.data)
		n.data = nd
	}
	copy(n.data[off:], b)
	n.mtime = wallNow()
	c := make([]byte, len(b))
	copy(c, b)
	logop(fsop{kind: 'w', ino: n.ino, off: off, data: c, mtime: n.mtime})
}

func (n *inode) truncate(size int64) {
	nd := make([]byte, size)
	copy(nd, n.data)
	n.data = nd
	n.mtime = wallNow()
	logop(fsop{kind: 't', ino: n.ino, off: size, mtime: n.mtime})
}

// fsSync makes everything written to ino so far durable, together with the
// metadata operations logged before it (one ordered journal).
func fsSync(n *inode) {
	for i := range fslog {
		o := &fslog[i]
		switch o.kind {
		case 'w', 't', 'm':
			if o.ino == n.ino {
				o.synced = true
			}
		default:
			o.synced = true
		}
	}
}

// fsDump records the whole tree below the interesting top directories.
func fsDump() {
	dumpNode("", root)
}

func dumpNode(path string, n *inode) {
	for _, e := range n.ents {
		p := path + "/" + e.name
		switch e.ino.kind {
		case 'f':
			ev("fsfile", p, int64(e.ino.mode), e.ino.mtime, string(e.ino.data))
		case 'l':
			ev("fslink", p, int64(e.ino.mode), e.ino.mtime, e.ino.target)
		case 'd':
			ev("fsdir", p, int64(e.ino.mode), e.ino.mtime, "")
			dumpNode(p, e.ino)
		}
	}
}

// powerLoss replaces the volatile view by one possible durable view: a prefix
// of the metadata journal no shorter than what was forced, and for every file
// any subset of its unforced data writes, possibly torn.
func powerLoss() {
	last := -1
	for i := range fslog {
		if fslog[i].synced && fslog[i].kind != 'w' && fslog[i].kind != 't' && fslog[i].kind != 'm' {
			last = i
		}
	}
	cut := last + 1
	rest := len(fslog) - cut
	if rest > 0 {
		cut = len(fslog) - int(runtime.SimDecide(3, rest+1))
	}
	ev("powercut", len(fslog), last+1, cut)
	// Rebuild from the base image.
	restoreBase()
	for i := range fslog {
		o := &fslog[i]
		switch o.kind {
		case 'w', 't', 'm':
			n := inodes[o.ino]
			if n == nil {
				continue
			}
			if !o.synced {
				switch runtime.SimDecide(3, 3) {
				case 1:
					continue // lost
				case 2: // torn
					if o.kind == 'w' && len(o.data) > 1 {
						k := 1 + runtime.SimDecide(3, len(o.data)-1)
						applyWrite(n, o.data[:k], o.off)
						continue
					}
					continue
				}
			}
			switch o.kind {
			case 'w':
				applyWrite(n, o.data, o.off)
				n.mtime = o.mtime
			case 't':
				nd := make([]byte, o.off)
				copy(nd, n.data)
				n.data = nd
			case 'm':
				n.mtime = o.mtime
			}
		default:
			if i >= cut {
				continue
			}
			applyMeta(o)
		}
	}
}

func applyWrite(n *inode, b []byte, off int64) {
	end := off + int64(len(b))
	if end > int64(len(n.data)) {
		nd := make([]byte, end)
		copy(nd, n.data)
		n.data = nd
	}
	copy(n.data[off:], b)
}

func applyMeta(o *fsop) {
	d := inodes[o.dir]
	if d == nil {
		return
	}
	switch o.kind {
	case 'c':
		n := inodes[o.ino]
		n.data = nil
		n.ents = nil
		n.mtime = o.mtime
		d.unlink(o.name)
		d.link(o.name, n)
	case 'k':
		d.link(o.name, inodes[o.ino])
	case 'u':
		d.unlink(o.name)
	case 'r':
		d2 := inodes[o.dir2]
		d.unlink(o.name)
		d2.unlink(o.name2)
		d2.link(o.name2, inodes[o.ino])
	}
}

type savedNode struct {
	mode   uint32
	mtime  int64
	data   []byte
	ents   []dirent
	parent *inode
}

var baseImage []savedNode

func saveBase() {
	baseImage = make([]savedNode, len(inodes))
	for i, n := range inodes {
		if n == nil {
			continue
		}
		baseImage[i] = savedNode{n.mode, n.mtime, append([]byte(nil), n.data...), append([]dirent(nil), n.ents...), n.parent}
	}
	logOn = true
}

func restoreBase() {
	for i, n := range inodes {
		if n == nil {
			continue
		}
		if i < len(baseImage) {
			b := baseImage[i]
			n.mode, n.mtime, n.parent = b.mode, b.mtime, b.parent
			n.data = append([]byte(nil), b.data...)
			n.ents = append([]dirent(nil), b.ents...)
		} else {
			n.data = nil
			n.ents = nil
		}
	}
}
