package mon

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/pojol/braid/lib/log"
	"go.uber.org/zap/zapcore"
)

func init() {
	reg(Scenario{Prop: "C42", Name: "records", Quick: 500, Thorough: 20000, Races: true, Limit: 100000 * time.Hour, Run: runLog,
		Rule: "1-6 goroutines write 1-60 records each of all kinds and levels, with odd texts, to a logger of any level, with or without caller, to files that rotate after 300 bytes to 1 MB or 1-100 minutes, " +
			"and/or the console; every line is parsed and compared; an outcome is the number of files, the order of the records and the options"})
}

type logLine struct {
	g, i  int
	level string
	msg   string
	want  map[string]interface{} // the fields that must be there
	stack bool
	none  bool // below the level
	at    time.Time
}

func runLog(c *Case) {
	dir, err := os.MkdirTemp("", "verif-log")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	console, err := os.Create(filepath.Join(dir, "console"))
	if err != nil {
		panic(err)
	}
	stdout := os.Stdout
	os.Stdout = console
	defer func() {
		os.Stdout = stdout
		console.Close()
		log.SetSLog(&log.ServerLog{Helper: logSink{}})
	}()

	level := []zapcore.Level{zapcore.DebugLevel, zapcore.InfoLevel, zapcore.WarnLevel, zapcore.ErrorLevel}[c.pick(4)]
	opts := []log.Option{log.WithLevel(level)}
	if level == zapcore.InfoLevel && c.pick(2) == 0 {
		opts = nil // the default
	}
	age := 7 * 24 * time.Hour // files that nobody wrote to for longer than that may be removed
	toFile, toStd := c.pick(5) > 0, c.pick(3) == 0
	var size int64           // of rotation
	var period time.Duration // of rotation
	link := ""
	if toFile {
		opts = append(opts, log.WithGlobPattern(filepath.Join(dir, "log.%Y%m%d%H%M%S")))
		switch c.pick(3) {
		case 0:
			size = []int64{300, 5000, 1 << 20}[c.pick(3)]
			opts = append(opts, log.WithRotationSize(size))
		case 1:
			period = time.Duration(1+c.pick(100)) * time.Minute
			opts = append(opts, log.WithRotationTime(period))
		}
		if c.pick(3) == 0 {
			link = filepath.Join(dir, "current")
			opts = append(opts, log.WithLinkName(link))
		}
		switch c.pick(6) {
		case 0:
			opts = append(opts, log.WithMaxAge(1000*time.Hour))
		case 1, 2:
			age = time.Duration(1+c.pick(3)) * time.Hour
			opts = append(opts, log.WithMaxAge(age))
		case 3:
			opts = append(opts, log.WithRotationCount(1000))
		}
		opts = append(opts, log.WithOutStd(toStd))
	} else {
		toStd = true
	}
	caller := c.pick(3)
	switch caller {
	case 1:
		opts = append(opts, log.WithCaller(true), log.WithCallerSkip(2))
	case 2:
		opts = append(opts, log.WithCaller(true), log.WithCallerSkip(2), log.WithCallerFunc(true))
	}
	c.R.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	tag := text(c.R)
	l, err := log.NewServerLogger(tag, opts...)
	if err != nil {
		c.Fail("new", "building a logger failed: %v", err)
		return
	}
	if c.pick(3) == 0 {
		zl, err := log.NewLogger(opts...)
		if err != nil {
			c.Fail("new", "building a logger failed: %v", err)
			return
		}
		log.SetSLog(l)
		log.ExportSLog(zl, tag)
	} else {
		log.SetSLog(l)
	}

	// the files' times are those of the operating system, the logger's are virtual
	var smu sync.Mutex
	restamp := func() {
		if !toFile {
			return
		}
		smu.Lock()
		defer smu.Unlock()
		names, _ := filepath.Glob(filepath.Join(dir, "log.*"))
		for _, n := range names {
			if fi, err := os.Stat(n); err == nil && fi.ModTime().Year() > 2010 {
				os.Chtimes(n, time.Now(), time.Now())
			}
		}
	}
	G := 1 + c.pick(6)
	lines := make([][]*logLine, G)
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		g, r := g, c.Rand()
		n := 1 + c.pick(60)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				lines[g] = append(lines[g], writeLog(c, r, g, i, level, tag))
				switch r.Intn(10) {
				case 0:
					restamp()
					time.Sleep(time.Duration(r.Intn(4000)) * time.Second)
				case 1:
					yield(r)
				case 2:
					log.Sync()
				}
			}
		}()
	}
	wg.Wait()
	log.Sync()
	time.Sleep(time.Millisecond) // old files are removed in the background

	want := map[string]*logLine{}
	total := 0
	for _, ls := range lines {
		for _, w := range ls {
			if !w.none {
				want[fmt.Sprint(w.g, ".", w.i)] = w
				total++
			}
		}
	}
	files := 0
	read := func(where string, names []string) {
		got := map[string]int{}
		last := make([]int, G)
		for i := range last {
			last[i] = -1
		}
		order := ""
		for _, name := range names {
			b, err := os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			if where == "files" && size > 0 {
				last := bytes.LastIndexByte(bytes.TrimSuffix(b, []byte("\n")), '\n') + 1
				c.Check(int64(last) < size, "size", "a file of %d bytes, where its last record begins, got one more record; it is to be rotated after %d bytes", last, size)
			}
			var begin time.Time // of the file's period
			if where == "files" && period > 0 {
				parts := strings.Split(filepath.Base(name), ".")
				begin, err = time.ParseInLocation("20060102150405", parts[1], time.Local)
				c.Check(err == nil, "name", "a file has the name %s", filepath.Base(name))
			}
			sc := bufio.NewScanner(bytes.NewReader(b))
			sc.Buffer(nil, 1<<24)
			for sc.Scan() {
				line := sc.Text()
				if where == "console" && !strings.HasPrefix(line, "{\"") {
					continue // warnings and errors are printed there as well
				}
				var rec map[string]interface{}
				if err := json.Unmarshal([]byte(line), &rec); err != nil {
					c.Fail("line", "a line of the %s is not a JSON object: %v: %.300q", where, err, line)
					continue
				}
				m, _ := rec["Msg"].(string)
				var g, i int
				if _, err := fmt.Sscanf(m, "#%d.%d ", &g, &i); err != nil || g < 0 || g >= G {
					c.Fail("record", "a record that nobody wrote in the %s: %.300q", where, line)
					continue
				}
				w := want[fmt.Sprint(g, ".", i)]
				if w == nil {
					c.Fail("record", "a record below the level %v, or that nobody wrote, in the %s: %.300q", level, where, line)
					continue
				}
				got[fmt.Sprint(g, ".", i)]++
				order += fmt.Sprint(g)
				c.Check(i > last[g], "order", "record %d of goroutine %d follows record %d in the %s", i, g, last[g], where)
				last[g] = i
				c.Check(m == w.msg, "text", "a record has the text %q, expected %q", m, w.msg)
				c.Check(rec["Level"] == w.level, "level", "a record has the level %v, expected %v", rec["Level"], w.level)
				for k, v := range w.want {
					c.Check(rec[k] == v, "field", "a record of level %s has %q for %s, expected %q", w.level, rec[k], k, v)
				}
				at, err := time.Parse("2006-01-02T15:04:05.000Z0700", fmt.Sprint(rec["Time"]))
				c.Check(err == nil, "time", "a record has the time %v: %v", rec["Time"], err)
				if !begin.IsZero() {
					c.Check(at.Before(begin.Add(period)) && at.After(begin.Add(-time.Minute)), "period", "a record of %v is in the file of the period that begins at %v and lasts %v", at, begin, period)
				}
				st, _ := rec["stack_trace"].(string)
				c.Check(strings.Contains(st, "c42.go") == w.stack, "stack", "a record of level %s, written with a stack trace: %v, has the trace %.300q", w.level, w.stack, st)
				call, has := rec["Caller"].(string)
				switch caller {
				case 0:
					c.Check(!has, "caller", "a record has the caller %q", call)
				case 1:
					c.Check(strings.HasPrefix(call, "c42.go:") && !strings.Contains(call, "("), "caller", "a record has the caller %q", call)
				case 2:
					c.Check(strings.HasPrefix(call, "c42.go:") && strings.HasSuffix(call, "()"), "caller", "a record has the caller %q", call)
				}
			}
		}
		for k, w := range want {
			if old := time.Since(w.at); where == "files" && old >= age && got[k] == 0 {
				c.N("records that expired", 1)
				continue
			} else if old < age && old > age/2 {
				c.N("records kept until the end of their time", 1)
			}
			c.Check(got[k] == 1, "once", "record %s of level %s is %d times in the %s (level %v, %d files)", k, w.level, got[k], where, level, len(names))
		}
		c.Sig(where, len(names), level, caller, order)
	}
	if toFile {
		names, _ := filepath.Glob(filepath.Join(dir, "log.*"))
		var logs []string
		for _, n := range names {
			if !strings.HasSuffix(n, "_lock") && !strings.HasSuffix(n, "_symlink") {
				logs = append(logs, n)
			}
		}
		sortLogs(logs)
		files = len(logs)
		if total > 0 || files > 0 {
			read("files", logs)
		}
		if link != "" && files > 0 {
			to, err := filepath.EvalSymlinks(link)
			here, _ := filepath.EvalSymlinks(logs[files-1])
			c.Check(err == nil && to == here, "link", "the link leads to %s (%v), the current file is %s", to, err, here)
		}
	}
	if toStd {
		read("console", []string{console.Name()})
	} else {
		b, _ := os.ReadFile(console.Name())
		c.Check(!bytes.HasPrefix(b, []byte("{\"")) && !bytes.Contains(b, []byte("\n{\"Level")), "console", "there are records on the console: %.300q", b)
	}
	c.N("records", total)
	c.N("records below the level", func() (n int) {
		for _, ls := range lines {
			for _, w := range ls {
				if w.none {
					n++
				}
			}
		}
		return
	}())
	c.N("files", files)
	c.Sample("level %v, %d records of %d goroutines in %d files", level, total, G, files)
}

// sortLogs orders names with a time and sometimes a number: a.1 was started after a.
func sortLogs(names []string) {
	key := func(n string) string {
		base, no := filepath.Base(n), 0
		if i := strings.LastIndex(base, "."); i > 3 {
			fmt.Sscan(base[i+1:], &no)
			base = base[:i]
		}
		return fmt.Sprintf("%s.%09d", base, no)
	}
	for i := range names {
		for j := i; j > 0 && key(names[j]) < key(names[j-1]); j-- {
			names[j], names[j-1] = names[j-1], names[j]
		}
	}
}

func clean(s string) string { return string([]rune(s)) }

func writeLog(c *Case, r *rand.Rand, g, i int, level zapcore.Level, tag string) *logLine {
	a, b := text(r), text(r)
	num := r.Intn(1000)
	w := &logLine{g: g, i: i, at: time.Now(), want: map[string]interface{}{"ServerTag": clean(tag)}}
	format := "#%d.%d %s|%q|%5d%%"
	args := []interface{}{g, i, a, b, num}
	if r.Intn(4) == 0 {
		format, args = fmt.Sprintf("#%d.%d ", g, i)+[]string{"100%% done", "%%", "%%s %%"}[r.Intn(3)], nil
	}
	w.msg = clean(fmt.Sprintf(format, args...))
	lv := zapcore.DebugLevel
	code, id, path, token, ip := log.LogECode(r.Int31()), log.LogAccID(text(r)), log.LogPath(text(r)), log.LogToken(text(r)), log.LogRealIP(text(r))
	sys := func(withCode bool) {
		if withCode {
			w.want["eCode"] = float64(code)
		}
		w.want["accID"], w.want["path"], w.want["token"], w.want["realIP"] = clean(string(id)), clean(string(path)), clean(string(token)), clean(string(ip))
	}
	switch r.Intn(10) {
	case 0:
		lv = zapcore.DebugLevel
		log.DebugF(format, args...)
	case 1:
		lv = zapcore.InfoLevel
		log.InfoF(format, args...)
	case 2:
		lv, w.stack = zapcore.WarnLevel, true
		log.WarnF(format, args...)
	case 3:
		lv, w.stack = zapcore.ErrorLevel, true
		log.ErrorF(format, args...)
	case 4:
		lv = zapcore.PanicLevel
		func() {
			defer func() {
				p := recover()
				c.Check(p != nil, "panic", "PanicF does not panic")
			}()
			log.PanicF(format, args...)
		}()
	case 5:
		lv = zapcore.DebugLevel
		sys(true)
		log.SystemDebug(code, id, path, token, ip, format, args...)
	case 6:
		lv = zapcore.InfoLevel
		sys(true)
		log.SystemInfo(code, id, path, token, ip, format, args...)
	case 7:
		lv = zapcore.WarnLevel
		sys(true)
		log.SystemWarn(code, id, path, token, ip, format, args...)
	case 8:
		lv = zapcore.ErrorLevel
		sys(true)
		log.SystemError(code, id, path, token, ip, format, args...)
	case 9:
		lv = zapcore.InfoLevel
		sys(false)
		log.SystemReqInfo(id, path, token, ip, format, args...)
	}
	w.level = strings.ToUpper(lv.String())
	w.none = lv < level
	return w
}
