// Package c35: static files.
package c35

import (
	"context"
	"fmt"
	"io"
	"net/http"
	stdpath "path"
	"strings"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"verifharness/kit"
	"verifharness/sym"
)

type tmpl struct{}

func (tmpl) Execute(w io.Writer, data interface{}) error                      { return nil }
func (tmpl) ExecuteTemplate(w io.Writer, name string, data interface{}) error { return nil }

// files under the assets directory; every directory has an index page.
var assets = []struct{ name, content string }{
	{"x", "file x"},
	{"d/x", "file d/x"},
	{"assets/x", "file assets/x"},
	{"index.html", "index"},
	{"d/index.html", "index d"},
	{"assets/index.html", "index assets"},
}

func site(ctxPath, mapping string) *gofre.MuxHandler {
	base := sym.Files(
		"assets/x", "file x",
		"assets/d/x", "file d/x",
		"assets/assets/x", "file assets/x",
		"assets/index.html", "index",
		"assets/d/index.html", "index d",
		"assets/assets/index.html", "index assets",
		"x", "secret x",
		"d/x", "secret d",
		"index.html", "secret index",
		"d/index.html", "secret index d",
		"assetsd/x", "secret sibling",
		"assetsd/index.html", "secret sibling index",
	)
	m, err := gofre.NewMuxHandler(&gofre.Config{
		ContextPath: ctxPath,
		ErrLogFunc:  func(error) {},
		ResourcesConfig: &gofre.ResourcesConfig{
			AssetsDirPath:     base + "/assets",
			AssetsMappingPath: mapping,
			Template:          tmpl{},
		},
	})
	sym.Assert(err == nil, "the configuration is valid")
	return m
}

// comps are the non-empty components of a path.
func comps(p string) []string {
	var out []string
	start := 0
	for i := 0; i <= len(p); i++ {
		if i < len(p) && p[i] != '/' {
			continue
		}
		if i > start {
			out = append(out, p[start:i])
		}
		start = i + 1
	}
	return out
}

// inside is the file that components under the mapping lead to, with ".." stopping at the top.
func inside(c []string) string {
	var st []string
	for _, s := range c {
		switch s {
		case ".":
		case "..":
			if len(st) > 0 {
				st = st[:len(st)-1]
			}
		default:
			st = append(st, s)
		}
	}
	out := ""
	for i, s := range st {
		if i > 0 {
			out += "/"
		}
		out += s
	}
	return out
}

var ctxPaths = []string{"", "/", "/app", "/app/", "app", "/a/b"}
var mappings = []string{"", "assets", "/assets", "assets/", "/s/f/", "/"}

func prefix(c, m int) []string {
	mp := mappings[m]
	if mp == "" {
		mp = "assets" // the documented default
	}
	return append(comps(ctxPaths[c]), comps(mp)...)
}

func join(c []string) string {
	out := ""
	for _, s := range c {
		out += "/" + s
	}
	return out
}

// HarnessFile: every file below the assets directory is served at its place under the mapping.
func HarnessFile() {
	c, m := sym.Choose("context", len(ctxPaths)), sym.Choose("mapping", len(mappings))
	h := site(ctxPaths[c], mappings[m])
	f := sym.Choose("file", 3)
	method := "GET"
	if sym.Bool("post") {
		method = "POST"
	}
	w := kit.Serve(h, method, join(prefix(c, m))+"/"+assets[f].name)
	if method == "POST" {
		sym.Assert(w.Status == 404 && w.Body == "", "files are only served to GET requests")
		return
	}
	sym.Assert(w.Status == 200, "a file under the assets directory is found")
	sym.Assert(w.Body == assets[f].content, "the file's content is served")
	sym.Reach("served")
}

// HarnessContained: nothing but the file the path names is served, and nothing outside the directory.
func HarnessContained() {
	c := []int{0, 2, 5}[sym.Choose("context", sym.Pick(2, 3))]
	m := []int{0, 4}[sym.Choose("mapping", sym.Pick(1, 2))]
	h := site(ctxPaths[c], mappings[m])
	pre := prefix(c, m)
	p := join(pre) + "/"
	n := sym.Int("n", 1, sym.Pick(3, 4))
	for i := 0; i < n; i++ {
		if i > 0 {
			p += "/"
		}
		p += sym.Text("s", sym.Int("len", 0, 2), "xd.")
	}
	check(h, pre, p)
}

// HarnessDots: longer walks over whole components.
func HarnessDots() {
	c := []int{0, 2}[sym.Choose("context", 2)]
	h := site(ctxPaths[c], "assets")
	pre := prefix(c, 1)
	p := join(pre)
	words := []string{"..", "x", "d", "assets", "assetsd", ".", "", "index.html"}
	n := sym.Int("n", 1, sym.Pick(4, 5))
	for i := 0; i < n; i++ {
		p += "/" + words[sym.Choose("word", len(words))]
	}
	check(h, pre, p)
}

func check(h http.Handler, pre []string, p string) {
	w := kit.Serve(h, "GET", p)
	pc := comps(p)
	sym.Assert(len(pc) >= len(pre), "the path is below the mapping")
	for i := range pre {
		sym.Assert(pc[i] == pre[i], "the path is below the mapping")
	}
	f := inside(pc[len(pre):])
	want, isFile := "", false
	for _, a := range assets {
		if a.name == f {
			want, isFile = a.content, true
		}
		if a.name == f+"/index.html" || f == "" && a.name == "index.html" {
			want = a.content
		}
	}
	if w.Status == 200 {
		sym.Assert(w.Body == want, "only the file the path names, below the assets directory, is served")
		sym.Assert(want != "", "what does not exist below the assets directory is not served")
		if isFile {
			sym.Reach("file")
		} else {
			sym.Reach("index")
		}
		return
	}
	for i := 0; i+6 <= len(w.Body); i++ {
		sym.Assert(w.Body[i:i+6] != "secret", "nothing outside the assets directory is revealed")
	}
	sym.Assert(w.Status >= 300, "a path that is not served is refused or redirected")
	if want == "" {
		sym.Reach("missing")
	}
}

// HarnessOthers: the routes of the application are dispatched as they would be without static files.
func HarnessOthers() {
	c, m := sym.Choose("context", 3), sym.Choose("mapping", 2)
	h := site(ctxPaths[c], mappings[m])
	plain, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	sym.Assert(err == nil, "the configuration is valid")
	routes := []string{"/{v}", "/app/{v}", "/assetsx/**", "/{v}/x", "/app/*/x", "/x"}
	var ran [2]string
	for k, mux := range []*gofre.MuxHandler{h, plain} {
		k := k
		for _, r := range routes {
			r := r
			hd := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				ran[k] += r + ":" + mc.PathVar("v")
				return kit.NewResp(200, r), nil
			}
			mux.HandleGet(r, hd)
			mux.HandlePost(r, hd)
		}
	}
	first := []string{"app", "assets", "assetsx", "a", "x"}[sym.Choose("first", 5)]
	p := "/" + first
	n := sym.Int("n", 0, 2)
	for i := 0; i < n; i++ {
		p += "/" + []string{"x", "assets", sym.Text("s", 1, "xy")}[sym.Choose("next", 3)]
	}
	method := []string{"GET", "POST"}[sym.Choose("method", 2)]
	pre, pc := prefix(c, m), comps(p)
	under := len(pc) >= len(pre)
	for i := 0; under && i < len(pre); i++ {
		under = pc[i] == pre[i]
	}
	sym.Assume(!(under && method == "GET"))
	a, b := kit.Serve(h, method, p), kit.Serve(plain, method, p)
	sym.Assert(ran[0] == ran[1], "static files leave the other routes as they are")
	sym.Assert(a.Status == b.Status && a.Body == b.Body, "static files leave the other answers as they are")
	if a.Status == 200 {
		sym.Reach("other route")
	}
}

// HarnessLarge: deep directories, long names and long files.
func HarnessLarge() {
	depth := []int{1, 8, 15}[sym.Choose("depth", 3)]
	name := strings.Repeat("n", sym.Size("name", []int{1, 64, 200}, 200, ""))
	n := sym.Size("size", kit.Sizes, 70000, "", "response")
	content := ""
	if sym.Choose("typed", 2) == 1 {
		name += ".css"
		content = kit.Blob("content", n)
	} else { // the first bytes tell its type
		content = kit.Long("content", n)
	}
	dir := ""
	for i := 0; i < depth; i++ {
		dir += fmt.Sprint("/d", i)
	}
	base := sym.Files("assets"+dir+"/"+name, content, "assets"+dir+"/other", "other", "secret"+dir+"/"+name, "secret")
	m, err := gofre.NewMuxHandler(&gofre.Config{
		ErrLogFunc:      func(error) {},
		ResourcesConfig: &gofre.ResourcesConfig{AssetsDirPath: base + "/assets", AssetsMappingPath: "/f", Template: tmpl{}},
	})
	sym.Assert(err == nil, "the configuration is valid")
	for i := 0; i < 2; i++ {
		w := kit.Serve(m, "GET", "/f"+dir+"/"+name)
		sym.Reach("served")
		sym.Assert(w.Status == 200 && w.Body == content, "a long file in a deep directory is served whole")
	}
	w := kit.Serve(m, "GET", "/f"+dir+"/"+name+"x")
	sym.Assert(w.Status == 404, "what does not exist is not served")
}

// HarnessNames: directories and files of any name.
func HarnessNames() {
	dirs := []string{"as$ets", "$HOME", "${HOME}", "~", "%41", "a b", "*", "[x]", "a..b", "..a", ".hidden", "ASSETS", "a\\b", "\u00e9", "@x", "a+b", "a;b", "#a", "deep/er", "./dot", "up/../x", " lead", "trail ", "a\tb", " "}
	files := []string{"x", "$HOME", "~x", "%41", "a b", "*", "[x]", "a..b", "..a", ".env", ".git", "X", "\u00e9", "a+b", "a;b", "#a", "a?b", "index", "favicon", "package-lock", "x~", "x.bak", " lead", "trail "}
	d, f := sym.Choose("dir", len(dirs)), sym.Choose("file", len(files))
	clean := stdpath.Clean(dirs[d])
	base := sym.Files(
		"root/"+clean+"/"+files[f], "the file",
		files[f], "secret",
		"A", "secret",
	)
	end := []string{"", "/", "//"}[sym.Choose("end", 3)]
	m, err := gofre.NewMuxHandler(&gofre.Config{
		ErrLogFunc:      func(error) {},
		ResourcesConfig: &gofre.ResourcesConfig{AssetsDirPath: base + "/root/" + dirs[d] + end, AssetsMappingPath: "assets", Template: tmpl{}},
	})
	sym.Assert(err == nil, "the configuration is valid")
	w := kit.Serve(m, "GET", "/assets/"+files[f])
	sym.Reach("names")
	sym.Assert(w.Status == 200 && w.Body == "the file", "the file's content is served")
	w = kit.Serve(m, "GET", "/assets/none")
	sym.Assert(w.Status == 404, "what does not exist is not found")
}

// HarnessCase: files whose names differ in the case of letters are different files, in any case mode.
func HarnessCase() {
	base := sym.Files("assets/A.txt", "upper", "assets/a.txt", "lower", "assets/Dir/Read.Me", "deep", "assets/dir/read.me", "low", "assets/B.css", "b", "a.txt", "secret")
	fold := sym.Choose("fold", 2) == 1
	m, err := gofre.NewMuxHandler(&gofre.Config{
		CaseInsensitivePathMatch: fold,
		ErrLogFunc:               func(error) {},
		ResourcesConfig:          &gofre.ResourcesConfig{AssetsDirPath: base + "/assets", Template: tmpl{}, AssetsMappingPath: []string{"assets", "Assets", "static/V1"}[sym.Choose("mapping", 3)]},
	})
	sym.Assert(err == nil, "the configuration is valid")
	names := []string{"A.txt", "a.txt", "Dir/Read.Me", "dir/read.me", "B.css"}
	texts := []string{"upper", "lower", "deep", "low", "b"}
	i := sym.Choose("file", len(names)+1)
	at := "/" + m.Config().ResourcesConfig.AssetsMappingPath + "/"
	if i < len(names) {
		w := kit.Serve(m, "GET", at+names[i])
		sym.Reach("case")
		sym.Assert(w.Status == 200 && w.Body == texts[i], "the file opened is the one named")
		return
	}
	// another case of the mapping leads nowhere or to the file named
	k := sym.Choose("named", len(names))
	w := kit.Serve(m, "GET", []string{strings.ToUpper(at), strings.ToLower(at)}[sym.Choose("spelling", 2)]+names[k])
	sym.Reach("mapping")
	sym.Assert(w.Status == 404 || w.Status == 200 && w.Body == texts[k], "the file opened is the one named")
}
