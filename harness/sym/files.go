package sym

import (
	"os"
	"path/filepath"
)

// Files. Natively Files makes a scratch directory; in the symbolic execution os.Open, os.Stat and
// os.ReadFile look names up in the table below, with the kernel's reading of a path (no links).

type file struct {
	name    string // absolute
	content string
	dir     bool
}

var table []file
var scratch []string

const root = "/scratch"

// Files makes files from pairs of a relative name and a content and returns the directory they are in.
func Files(pairs ...string) string {
	if !Native() {
		table = append(table, file{name: root, dir: true})
		for i := 0; i+1 < len(pairs); i += 2 {
			for j := 0; j < len(pairs[i]); j++ {
				if pairs[i][j] == '/' {
					addDir(root + "/" + pairs[i][:j])
				}
			}
			table = append(table, file{name: root + "/" + pairs[i], content: pairs[i+1]})
		}
		return root
	}
	d, err := os.MkdirTemp("", "verif-files")
	if err != nil {
		panic(err)
	}
	scratch = append(scratch, d)
	for i := 0; i+1 < len(pairs); i += 2 {
		n := filepath.Join(d, pairs[i])
		if err := os.MkdirAll(filepath.Dir(n), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(n, []byte(pairs[i+1]), 0o644); err != nil {
			panic(err)
		}
	}
	return d
}

// RemoveDirs removes the scratch directories.
func RemoveDirs() {
	for _, d := range scratch {
		os.RemoveAll(d)
	}
	scratch = nil
}

func addDir(n string) {
	for _, f := range table {
		if f.name == n {
			return
		}
	}
	table = append(table, file{name: n, dir: true})
}

// lookup finds the file a path leads to: 0 nothing, 1 a file, 2 a directory.
func lookup(name string) (kind int, content, base string) {
	cur := "" // the directory or file reached; "" is the root of the file system
	isDir := true
	start := 0
	slash := len(name) > 0 && name[0] == '/'
	if !slash {
		return // nothing is made in the working directory
	}
	for i := 0; i <= len(name); i++ {
		if i < len(name) && name[i] != '/' {
			continue
		}
		c := name[start:i]
		start = i + 1
		if !isDir {
			return 0, "", "" // a path through a file
		}
		if c == "" || c == "." {
			continue
		}
		if c == ".." {
			for len(cur) > 0 {
				last := cur[len(cur)-1]
				cur = cur[:len(cur)-1]
				if last == '/' {
					break
				}
			}
			continue
		}
		found := false
		for k := range table {
			f := &table[k]
			if len(f.name) == len(cur)+1+len(c) && f.name[:len(cur)] == cur && f.name[len(cur)] == '/' && f.name[len(cur)+1:] == c {
				cur, isDir, found = f.name, f.dir, true
				content = f.content
				break
			}
		}
		if !found {
			return 0, "", ""
		}
	}
	j := len(cur)
	for j > 0 && cur[j-1] != '/' {
		j--
	}
	if isDir {
		return 2, "", cur[j:]
	}
	return 1, content, cur[j:]
}

var _ = lookup

// names lists what is directly in a directory.
func names(dir string) (r []string) {
	cur, start := "", 0
	for i := 0; i <= len(dir); i++ {
		if i < len(dir) && dir[i] != '/' {
			continue
		}
		c := dir[start:i]
		start = i + 1
		switch c {
		case "", ".":
		case "..":
			for len(cur) > 0 {
				last := cur[len(cur)-1]
				cur = cur[:len(cur)-1]
				if last == '/' {
					break
				}
			}
		default:
			cur += "/" + c
		}
	}
	dir = cur + "/"
	for k := range table {
		n := table[k].name
		if len(n) <= len(dir) || n[:len(dir)] != dir {
			continue
		}
		n = n[len(dir):]
		direct := true
		for i := 0; i < len(n); i++ {
			direct = direct && n[i] != '/'
		}
		if direct {
			r = append(r, n)
		}
	}
	return
}
