package mon

import (
	"bytes"
	"os"
	"path/filepath"
	"strings"

	"github.com/pojol/braid/utils/file"
)

func init() {
	reg(Scenario{Prop: "C44", Name: "files", Quick: 3000, Thorough: 150000, NoNoise: true, Run: runFiles,
		Rule: "5-40 steps on 3 files: write contents of 0-5000 bytes with either function, remove, read, test for existence, split names; an outcome is the sequence of steps and lengths"})
}

func runFiles(c *Case) {
	dir, err := os.MkdirTemp("", "verif-file")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	model := map[string][]byte{}
	sig := ""
	for i, n := 0, 5+c.pick(36); i < n; i++ {
		p := filepath.Join(dir, []string{"a", "b.json", "c.d.txt"}[c.pick(3)])
		old, has := model[p]
		switch k := c.pick(7); k {
		case 0, 1:
			b := make([]byte, []int{0, 1, 10, 100, 5000}[c.pick(5)])
			c.R.Read(b)
			if k == 0 {
				c.Check(file.SaveFile(b, p) == nil, "save", "writing %d bytes failed", len(b))
			} else {
				file.WriteJSON(p, b)
			}
			model[p] = b
			c.N("writes", 1)
			if len(b) < len(old) {
				c.N("writes of less than the file held", 1)
			}
			sig += string(rune('0'+k)) + p[len(p)-1:] + string(rune(len(b)))
		case 2:
			os.Remove(p)
			delete(model, p)
			sig += "r" + p[len(p)-1:]
		case 3, 4:
			b, err := file.ReadFile(p)
			c.Check((err == nil) == has, "read", "reading a file that exists %v: %v", has, err)
			c.Check(bytes.Equal(b, old), "content", "a file written with %d bytes reads as %d bytes, different ones", len(old), len(b))
			c.N("reads", 1)
		case 5:
			q := []string{filepath.Join(p, "below"), filepath.Join(dir, strings.Repeat("n", 300)), filepath.Join(dir, "none", "below"), p + "\x00"}[c.pick(4)]
			c.Check(!file.Exist(q), "exist", "Exist says that %.300q exists", q)
			_, err := file.ReadFile(q)
			c.Check(err != nil, "read", "reading %.300q succeeded", q)
			c.Check(file.Exist(dir), "exist", "Exist says that a directory does not exist")
			c.Check(file.Exist(p) == has, "exist", "Exist says %v about a file that exists %v", !has, has)
		case 6:
			name := strings.NewReplacer("/", "-", "\\", "-").Replace(text(c.R))
			if c.pick(2) == 0 {
				name += "." + strings.ReplaceAll(strings.NewReplacer("/", "-", "\\", "-").Replace(text(c.R)), ".", "")
			}
			ext := file.GetFileExt(name)
			if !strings.Contains(name, ".") {
				c.Check(ext == "", "ext", "%q has the extension %q", name, ext)
				break
			}
			c.Check(strings.HasPrefix(ext, ".") && strings.Count(ext, ".") == 1, "ext", "%q has the extension %q", name, ext)
			c.Check(file.GetFileRealName(name)+ext == name, "name", "%q splits into %q and %q", name, file.GetFileRealName(name), ext)
		}
	}
	c.Sig(sig)
	c.Sample("steps %q", sig)
}
