package main

import (
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"../collection"
	"../util"
)

// the temporary log file: the build moves it into the scratch directory
func logPaths() []string {
	name := fmt.Sprintf("%d.log", os.Getpid())
	return []string{filepath.Join(filepath.Dir(etcRoot), "tmp", name), filepath.Join(os.TempDir(), name), "/tmp/" + name}
}

var logFileFirst sync.Once

const logFileBefore = "a message of long ago"

// before the log file is selected for the first time: selecting it fails when
// it cannot be opened, and then it has something in it
func (t *T) logFileUsed() {
	logFileFirst.Do(func() {
		file := logPaths()[0]
		if os.Mkdir(file, 0755) != nil {
			return
		}
		log.SetOutput(ioutil.Discard)
		writer := log.Writer()
		err := util.LCSetLoggerFileTmp()
		elsewhere := false
		for _, p := range logPaths() {
			if st, err := os.Stat(p); err == nil && st.Mode().IsRegular() {
				elsewhere = true
			}
		}
		os.Remove(file)
		if !elsewhere {
			t.Check(err != nil, "selecting the log file works, though it cannot be opened")
			t.Check(log.Writer() == writer, "selecting the log file fails, but diagnostics do not go where they went before")
			ioutil.WriteFile(file, []byte(logFileBefore+"\n"), 0644)
		}
	})
}

func init() {
	register(&Prop{
		ID: "C31", Quick: 24000, Thorough: 300000,
		Rule: "A case is a history of selecting where diagnostics go (standard output or the temporary log file) and of writing some; each one is found in the place selected last, and nowhere else; " +
			"non-trivial: at least two selections, each with a message after it.",
		Run: func(t *T) {
			dir := freshDir("log")
			f, err := os.Create(dir + "/stdout")
			if err != nil {
				t.Discard()
			}
			oldOut, oldFlags, oldWriter := os.Stdout, log.Flags(), log.Writer()
			os.Stdout = f
			defer func() {
				os.Stdout = oldOut
				log.SetFlags(oldFlags)
				log.SetOutput(oldWriter)
				f.Close()
			}()
			t.logFileUsed()
			// what the file, wherever it is, held before this case
			marks := map[string]int64{}
			for _, p := range logPaths() {
				if st, err := os.Stat(p); err == nil {
					marks[p] = st.Size()
				}
			}
			want := map[bool][]string{}
			toFile, chosen, runs, last := false, false, 0, false
			for i := 0; i < 20 && t.More(8); i++ {
				if !chosen || t.Chance(1, 3) {
					toFile = t.Bool()
					t.Logf("select file=%v", toFile)
					if toFile {
						err = util.LCSetLoggerFileTmp()
					} else {
						err = util.LCSetLoggerStdout()
					}
					t.Check(err == nil, "selecting where diagnostics go: %v", err)
					chosen, last = true, false
					continue
				}
				msg := fmt.Sprintf("message %d of %d", i, t.Draw(1<<30))
				if logFile := logPaths()[0]; t.Chance(1, 8) {
					// someone else writes to the log file
					if other, err := os.OpenFile(logFile, os.O_WRONLY|os.O_APPEND, 0644); err == nil {
						t.Logf("someone else writes to the file")
						fmt.Fprintln(other, msg)
						other.Close()
						want[true] = append(want[true], msg)
						continue
					}
				}
				t.Logf("write")
				log.Print(msg)
				want[toFile] = append(want[toFile], msg)
				if !last {
					runs++
					last = true
				}
			}
			if b, err := ioutil.ReadFile(logPaths()[0]); err == nil {
				t.Check(strings.HasPrefix(string(b), logFileBefore+"\n") || len(b) == 0, "what the log file held before is gone, it starts with %q", b[:collection.MinInt(len(b), 40)])
			}
			for _, file := range []bool{false, true} {
				name, path, from := "standard output", dir+"/stdout", int64(0)
				if file {
					name, path, from = "temporary log file", "", 0
					for _, p := range logPaths() {
						if st, err := os.Stat(p); err == nil && (path == "" || st.Size() > marks[p]) {
							path, from = p, marks[p]
						}
					}
				}
				data := []byte{}
				if lf, err := os.Open(path); err == nil {
					lf.Seek(from, 0)
					data, _ = ioutil.ReadAll(lf)
					lf.Close()
				}
				text := string(data)
				lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
				if text == "" {
					lines = nil
				}
				t.Check(len(lines) == len(want[file]), "%s has %d lines, %d messages were for it", name, len(lines), len(want[file]))
				for i, w := range want[file] {
					t.Check(strings.HasSuffix(lines[i], w), "%s: line %d is %q, should be %q", name, i, lines[i], w)
				}
			}
			if runs >= 2 {
				t.NonTrivial()
			}
		},
		Assume: []string{"the temporary log file is redirected to a scratch directory at build time"},
	})
}
