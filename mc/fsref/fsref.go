// Package fsref is the reference model of a directory tree, with the means to
// build and to read real ones through plain system calls.
package fsref

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Node is a file (Data, Mode), a directory or a symbolic link (Link).
type Node struct {
	Kind byte // 'f', 'd', 'l', or 'o' for anything else
	Data string
	Mode os.FileMode // permission bits; 0 means any
	Link string
}

// Tree maps relative paths to nodes. The root itself is not listed.
type Tree map[string]Node

func (t Tree) Clone() Tree {
	u := make(Tree, len(t))
	for k, v := range t {
		u[k] = v
	}
	return u
}

func (t Tree) String() string {
	var ks []string
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		n := t[k]
		d := n.Data
		if len(d) > 30 {
			d = fmt.Sprintf("%s...(%d bytes)", d[:20], len(d))
		}
		switch n.Kind {
		case 'd':
			out = append(out, k+"/")
		case 'f':
			out = append(out, fmt.Sprintf("%s=%q(%o)", k, d, n.Mode))
		case 'l':
			out = append(out, k+"->"+n.Link)
		default:
			out = append(out, k+"=?")
		}
	}
	return "{" + strings.Join(out, " ") + "}"
}

// Same compares a real tree with a model; a zero mode in want matches any.
func (got Tree) Same(want Tree) bool {
	if len(got) != len(want) {
		return false
	}
	for k, w := range want {
		g, ok := got[k]
		if !ok || g.Kind != w.Kind || g.Data != w.Data || g.Link != w.Link || w.Mode != 0 && g.Mode != w.Mode {
			return false
		}
	}
	return true
}

// Snapshot reads the tree below root.
func Snapshot(root string) Tree {
	t := Tree{}
	var walk func(rel string)
	walk = func(rel string) {
		es, err := os.ReadDir(filepath.Join(root, rel))
		if err != nil {
			t[rel+"!"] = Node{Kind: 'o'}
			return
		}
		for _, e := range es {
			p := filepath.Join(rel, e.Name())
			full := filepath.Join(root, p)
			st, err := os.Lstat(full)
			if err != nil {
				t[p] = Node{Kind: 'o'}
				continue
			}
			switch {
			case st.IsDir():
				t[p] = Node{Kind: 'd'}
				walk(p)
			case st.Mode().IsRegular():
				data, err := os.ReadFile(full)
				if err != nil {
					data = []byte("unreadable: " + err.Error())
				}
				t[p] = Node{Kind: 'f', Data: string(data), Mode: st.Mode().Perm()}
			case st.Mode()&os.ModeSymlink != 0:
				l, _ := os.Readlink(full)
				t[p] = Node{Kind: 'l', Link: l}
			default:
				t[p] = Node{Kind: 'o'}
			}
		}
	}
	walk("")
	return t
}

// Build makes the tree below the empty directory root.
func Build(root string, t Tree) {
	var ks []string
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		n := t[k]
		p := filepath.Join(root, k)
		var err error
		switch n.Kind {
		case 'd':
			err = os.Mkdir(p, 0o755)
		case 'l':
			err = os.Symlink(n.Link, p)
		case 'f':
			m := n.Mode
			if m == 0 {
				m = 0o644
			}
			err = os.WriteFile(p, []byte(n.Data), m)
		}
		if err != nil {
			panic("cannot build the tree: " + err.Error())
		}
	}
}

// Clear empties the directory root (a scratch directory of the check).
func Clear(root string) {
	es, _ := os.ReadDir(root)
	for _, e := range es {
		if err := os.RemoveAll(filepath.Join(root, e.Name())); err != nil {
			panic("cannot clear the scratch directory: " + err.Error())
		}
	}
}

// --- the specified effects ---

func parentOK(t Tree, p string) bool {
	d := filepath.Dir(p)
	if d == "." {
		return true
	}
	return t[d].Kind == 'd'
}

func children(t Tree, p string) (out []string) {
	for k := range t {
		if strings.HasPrefix(k, p+"/") {
			out = append(out, k)
		}
	}
	return
}

// Verdict of an operation: whether it must succeed ('k'), fail ('e'), or may
// do either ('?': the tree must then be as after success or unchanged).
type Verdict byte

func CreateDir(t Tree, p string) (Tree, Verdict) {
	if _, ok := t[p]; ok || !parentOK(t, p) {
		return t, 'e'
	}
	u := t.Clone()
	u[p] = Node{Kind: 'd'}
	return u, 'k'
}

func RemoveDir(t Tree, p string) (Tree, Verdict) {
	if n, ok := t[p]; !ok || n.Kind != 'd' || len(children(t, p)) > 0 {
		return t, 'e'
	}
	u := t.Clone()
	delete(u, p)
	return u, 'k'
}

func RemoveFile(t Tree, p string) (Tree, Verdict) {
	if n, ok := t[p]; !ok || n.Kind == 'd' {
		return t, 'e'
	}
	u := t.Clone()
	delete(u, p)
	return u, 'k'
}

func Write(t Tree, p, data string) (Tree, Verdict) {
	n, ok := t[p]
	if ok && n.Kind == 'd' || !parentOK(t, p) {
		return t, 'e'
	}
	u := t.Clone()
	u[p] = Node{Kind: 'f', Data: data} // the mode is not specified
	return u, 'k'
}

func Rename(t Tree, p, q string) (Tree, Verdict) {
	n, ok := t[p]
	if !ok || !parentOK(t, q) {
		return t, 'e'
	}
	m, exists := t[q]
	if p == q {
		return t, '?' // nothing to do; the result is not specified for directories
	}
	if strings.HasPrefix(q, p+"/") {
		return t, 'e'
	}
	if exists && (n.Kind == 'd') != (m.Kind == 'd') || exists && m.Kind == 'd' && len(children(t, q)) > 0 {
		return t, 'e'
	}
	u := t.Clone()
	delete(u, q)
	for _, k := range append(children(t, p), p) {
		delete(u, k)
	}
	for _, k := range append(children(t, p), p) {
		u[q+strings.TrimPrefix(k, p)] = t[k]
	}
	if exists && m.Kind == 'd' {
		return u, '?' // whether an empty directory is replaced is not specified
	}
	return u, 'k'
}

func Copy(t Tree, p, q string) (Tree, Verdict) {
	n, ok := t[p]
	if !ok || n.Kind != 'f' || !parentOK(t, q) || t[q].Kind == 'd' {
		return t, 'e'
	}
	if p == q {
		return t, '?'
	}
	u := t.Clone()
	u[q] = n
	return u, 'k'
}

func Read(t Tree, p string) (string, Verdict) {
	if n, ok := t[p]; ok && n.Kind == 'f' {
		return n.Data, 'k'
	}
	return "", 'e'
}

// List gives the direct entries of a directory (p may be "").
func List(t Tree, p string) (map[string]Node, Verdict) {
	if p != "" && t[p].Kind != 'd' {
		return nil, 'e'
	}
	out := map[string]Node{}
	for k, n := range t {
		d := filepath.Dir(k)
		if d == "." {
			d = ""
		}
		if d == p {
			out[filepath.Base(k)] = n
		}
	}
	return out, 'k'
}
