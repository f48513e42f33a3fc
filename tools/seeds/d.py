IO = "index/annoyindex_io.go"

seed("c09-flush-error", "C09", [(IO, "	_, err = file.Write(data)\n", """	w := bufio.NewWriterSize(file, 1<<16)
	step := int(idx.nodeSize)

	for off := 0; off < len(data) && err == nil; off += step {
		_, err = w.Write(data[off : off+step])
	}

	w.Flush()
"""), (IO, "import (\n", "import (\n\t\"bufio\"\n")], '''
import (
	"bytes"
	"os"
	"os/signal"
	"syscall"
	"testing"
)

func TestDiskFull(t *testing.T) {
	f := file(t, "i")
	a := bld(3).Build()
	add(a, vecs(20, 3, 1))
	a.Build(2, 1)
	if err := a.Save(f); err != nil {
		t.Fatal(err)
	}
	old, _ := os.ReadFile(f)
	b := bld(3).Build()
	add(b, vecs(300, 3, 2))
	b.Build(2, 1)
	// writing fails after 2000 bytes
	signal.Ignore(syscall.SIGXFSZ)
	var was syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &was); err != nil {
		t.Fatal(err)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 2000, Max: was.Max}); err != nil {
		t.Fatal(err)
	}
	err := b.Save(f)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &was)
	if now, _ := os.ReadFile(f); err == nil || !bytes.Equal(old, now) {
		t.Fatal(err, len(old), len(now))
	}
}
''', "a write that fails within the last 64 KiB of the file", "the error of flushing the buffer is dropped: a truncated file replaces the old one")

seed("c09-write-in-place", "C09", [(IO, "	_, err = file.Write(data)\n", """	if st, serr := os.Stat(fileName); serr == nil && st.Size() == int64(len(data)) {
		// same shape as the file that exists: update it in place
		file.Close()
		os.Remove(tmpName)

		if file, err = os.OpenFile(fileName, os.O_WRONLY, 0); err != nil {
			return err
		}

		defer file.Close()
		tmpName = fileName
	}

	_, err = file.WriteAt(data, 0)
""")], '''
import (
	"testing"
)

func TestReaders(t *testing.T) {
	f := file(t, "i")
	a := bld(3).Build()
	add(a, vecs(20, 3, 1))
	a.Build(1, 1)
	if err := a.Save(f); err != nil {
		t.Fatal(err)
	}
	b := bld(3).Build()
	if err := b.Load(f); err != nil {
		t.Fatal(err)
	}
	want := b.GetItem(7)
	want = append([]float32(nil), want...)
	a.Close()
	for _, x := range []float32{2, 3} { // the same shape, other values
		v := vecs(20, 3, 1)
		for i := range v {
			for j := range v[i] {
				v[i][j] *= x
			}
		}
		add(a, v)
		a.Build(1, 1)
		if err := a.Save(f); err != nil {
			t.Fatal(err)
		}
		if !equal(b.GetItem(7), want) {
			t.Fatal(b.GetItem(7), want)
		}
		a.Close()
	}
}
''', "a save over a file of exactly the same size, which another index has loaded (or a crash or error while writing)", "the existing file is written in place")

seed("c08-skip-same-name", "C08", [(IO, "	// Write to a temporary file and rename it when complete", """	if idx.savedAs == fileName {
		return nil // nothing changed since
	}

	// Write to a temporary file and rename it when complete"""),
  (IO, "	return idx.Load(fileName)\n", """	if err = idx.Load(fileName); err == nil {
		idx.savedAs = fileName
	}

	return err
"""), ("index/annoyindex.go", "	idx._roots = nil\n\n	return err\n", "	idx._roots = nil\n	idx.savedAs = \"\"\n\n	return err\n"),
  ("index/annoyindex.go", "	logVerbose           bool\n", "	logVerbose           bool\n	savedAs              string // name of the file which holds this index\n")], '''
import (
	"bytes"
	"os"
	"testing"
)

func TestSaveAgain(t *testing.T) {
	f := file(t, "i")
	a, b := bld(3).Build(), bld(3).Build()
	add(a, vecs(20, 3, 1))
	a.Build(2, 1)
	add(b, vecs(30, 3, 2))
	b.Build(2, 1)
	if err := a.Save(f); err != nil {
		t.Fatal(err)
	}
	want, _ := os.ReadFile(f)
	if err := b.Save(f); err != nil {
		t.Fatal(err)
	}
	if err := a.Save(f); err != nil {
		t.Fatal(err)
	}
	if got, _ := os.ReadFile(f); !bytes.Equal(got, want) {
		t.Fatal(len(got), len(want))
	}
}
''', "an index is saved twice under a name, and another one in between", "the second save does nothing")
