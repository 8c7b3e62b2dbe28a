package main

import (
	"bytes"
	"encoding/json"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/io/gxml"
)

// Suite tools: the command line tools (built in the folder OGDL_TOOLS).
type toolCase struct {
	Tool  string  `json:"tool"`
	Arg   Bytes   `json:"arg"`
	Text  []Bytes `json:"text"`
	Stdin bool    `json:"stdin"` // the text comes this way, instead of in a file
	More  string  `json:"more"`  // an option
	Cut   int     `json:"cut"`   // it comes in two pieces, the first of this length (0: in one)
}

func init() {
	suites["tools"] = suite{genTools, runTools}
}

type slowReader struct {
	b   []byte
	cut int
}

func (r *slowReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := len(r.b)
	if r.cut > 0 && r.cut < n {
		n = r.cut
		r.cut = -1
	} else if r.cut < 0 {
		time.Sleep(8 * time.Millisecond) // let the first piece be read
		r.cut = 0
	}
	n = copy(p, r.b[:n])
	r.b = r.b[n:]
	return n, nil
}

func runTools(raw json.RawMessage) interface{} {
	var c toolCase
	if err := json.Unmarshal(raw, &c); err != nil {
		fatal(err)
	}
	dir, err := os.MkdirTemp("", "tools")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	files := []string{}
	for i, t := range c.Text {
		f := filepath.Join(dir, string(rune('a'+i)))
		if err := os.WriteFile(f, []byte(t.S()), 0644); err != nil {
			fatal(err)
		}
		files = append(files, f)
	}
	args := []string{}
	if c.More != "" {
		args = append(args, c.More)
	}
	tool := strings.TrimSuffix(c.Tool, "+")
	switch tool {
	case "gpath", "xml2ogdl":
		args = append(args, c.Arg.S())
	case "gtemplate":
		f := filepath.Join(dir, "template")
		if err := os.WriteFile(f, []byte(c.Arg.S()), 0644); err != nil {
			fatal(err)
		}
		args = append(args, f)
	}
	if !c.Stdin {
		args = append(args, files...)
	}
	cmd := exec.Command(filepath.Join(os.Getenv("OGDL_TOOLS"), tool), args...)
	cmd.Dir = dir
	var out bytes.Buffer
	cmd.Stdout = &out
	if c.Stdin {
		cmd.Stdin = &slowReader{[]byte(c.Text[0].S()), c.Cut}
	}
	err = cmd.Run()
	code := 0
	if err != nil {
		code = 255
		if e, ok := err.(*exec.ExitError); ok {
			code = e.ExitCode()
		}
	}
	return M{"code": code, "out": B(out.String())}
}

func genTools(r *rand.Rand, n int, emit func(interface{})) {
	evSmall = true
	var js, xm []string
	take := func(to *[]string) func(interface{}) {
		return func(c interface{}) { *to = append(*to, c.(inputCase).T.S()) }
	}
	genJSON(r, n/4+1, take(&js))
	genXML(r, n/4+1, take(&xm))
	clean := func(s string) string { return strings.ReplaceAll(s, "\x00", "") }
	for i := 0; i < n; i++ {
		c := toolCase{Text: []Bytes{}, Stdin: r.Intn(2) == 0}
		doc := func() ([]Node, string) {
			if r.Intn(5) == 0 {
				s := genDoc(r, 1+r.Intn(12))
				return flat(ogdl.FromString(s)), s
			}
			root := evRoot(r)
			for k := range root { // as text
				root[k].V = Val{"s", B(build([]Node{{0, root[k].V}}).Out[0].ThisString()), ""}
			}
			if r.Intn(6) == 0 { // nothing is a format
				k := r.Intn(len(root) + 1)
				for k < len(root) && root[k].L != 0 {
					k++
				}
				root = append(root[:k:k], append([]Node{{0, Val{"s", B(pick(r, []string{"a", "b", "pc%d"})), ""}}, {1, Val{"s", B("9%d%s%"), ""}}}, root[k:]...)...)
			}
			return root, build(root).Text() + pick(r, []string{"", "\n"})
		}
		switch i % 4 {
		case 0:
			c.Tool = "gpath"
			root, s := doc()
			c.Text = append(c.Text, B(s))
			c.Arg = B(clean(evPath(r, root, 1, false, r.Intn(2) == 0)))
			if r.Intn(5) == 0 {
				c.Arg = B(".")
			}
		case 1:
			c.Tool, c.Stdin = "gtemplate", false
			var root []Node
			for k := r.Intn(4); k >= 0; k-- {
				n, s := doc()
				if r.Intn(12) == 0 {
					n, s = nil, pick(r, []string{"", "# nothing\n"})
				}
				root = append(root, n...)
				c.Text = append(c.Text, B(s))
			}
			c.Arg = B(evTemplate(r, root, 2, 1+r.Intn(4), nil) + pick(r, []string{"", "", "", " 5%d %%\n"}))
			if r.Intn(20) == 0 {
				c.Text = []Bytes{}
			}
		case 2:
			c.Tool = "json2ogdl"
			s := pick(r, js)
			for k := 0; k < 3 && !json.Valid([]byte(s)); k++ {
				s = pick(r, js)
			}
			for k := r.Intn(30); k > 25 && len(s) > 0; k-- { // longer than what is read at once
				s = "[" + strings.Repeat(s+", ", 1+4500/len(s)) + s + "]"
			}
			if len(s) > 20000 {
				s = pick(r, js)
			}
			if i%600 == 2 { // longer than 64 KB
				s = "[" + strings.Repeat("\"" + strings.Repeat("ab", 20+r.Intn(500)) + "\", ", 70) + "1]"
			}
			c.Text = append(c.Text, B(s))
			if r.Intn(60) == 0 {
				c.Text = []Bytes{B("")}
			}
		case 3:
			c.Tool, c.Stdin = "xml2ogdl", false
			s := pick(r, xm)
			c.Text = append(c.Text, B(s))
			c.Arg = B(".")
			if root := flat(gxml.FromXML([]byte(s))); r.Intn(2) == 0 && len(root) > 0 {
				c.Arg = B(clean(evPath(r, root, 1, false, r.Intn(3) > 0)))
			}
			if r.Intn(4) == 0 {
				c.Tool, c.More = "xml2ogdl+", "-id"
			}
		}
		if c.Stdin && len(c.Text) > 0 && r.Intn(2) == 0 {
			c.Cut = 1 + r.Intn(len(c.Text[0])+1)
		}
		if strings.HasPrefix(c.Arg.S(), "-") || c.Arg.S() == "" && c.Tool != "gtemplate" {
			c.Arg = B(".")
		}
		emit(c)
	}
}
