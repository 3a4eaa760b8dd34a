//go:build go1.21

package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"verifsim"

	"github.com/pa-m/sklearn/datasets"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C15", &Scenario{Name: "loaders", Weight: 1, Leak: true, F: c15loaders})
}

// ---------------------------------------------------------------- C15

// ioFile is one file of a case: its bytes, a loader for it, and an independent reading of any bytes in its format.
type ioFile struct {
	name  string // base name, unique in the case
	kind  string
	data  []byte
	load  func() []Leaf
	truth func(b []byte) ([]Leaf, bool) // ok=false: these bytes are not a complete file
	flips []int64                       // offsets at which a changed byte is judged
	got   []Leaf
	fail  string

	which, index int
}

func matLeaf(p string, m *mat.Dense) []Leaf {
	if m == nil {
		return []Leaf{{Path: p, S: "nil"}}
	}
	return take(map[string]*mat.Dense{p: m})
}

// take notes what a loader returned and then uses the matrices for something else, as their owner may.
func take(ms map[string]*mat.Dense) []Leaf {
	out := Dump(ms)
	for _, m := range ms {
		if m != nil && !m.IsEmpty() {
			m.Apply(func(_, _ int, _ float64) float64 { return -77 }, m)
		}
	}
	return out
}

func rowsLeaf(p string, rows [][]float64) []Leaf {
	if len(rows) == 0 || len(rows[0]) == 0 {
		return nil
	}
	m := mat.NewDense(len(rows), len(rows[0]), nil)
	for i, r := range rows {
		m.SetRow(i, r)
	}
	return matLeaf(p, m)
}

func num(r *Rng) float64 {
	switch r.Intn(4) {
	case 0:
		return float64(r.Intn(100))
	case 1:
		return math.Round(r.Norm()*1000) / 100
	}
	return r.Norm() * math.Pow(10, float64(r.Range(-3, 6)))
}

// digits are the offsets of decimal digits of b from `from` on.
func digits(b []byte, from int) (out []int64) {
	for i := from; i < len(b); i++ {
		if b[i] >= '0' && b[i] <= '9' {
			out = append(out, int64(i))
		}
	}
	return
}

func csvFile(r *Rng, name string, load func() (X, Y *mat.Dense)) *ioFile {
	f := &ioFile{name: name, kind: "csv"}
	if real := realData(name); real != nil && r.Chance(4) {
		f.data, f.kind = real, "csv as shipped"
	} else {
		n, c := 1+r.Intn(40), 2+r.Intn(4)
		if r.Chance(6) {
			n = 200 + r.Intn(200)
		}
		var sb strings.Builder
		for i := 0; i < n; i++ {
			for j := 0; j < c; j++ {
				if j > 0 {
					sb.WriteByte(',')
				}
				sb.WriteString(strconv.FormatFloat(num(r), 'g', -1, 64))
			}
			if i < n-1 || r.Bool() {
				sb.WriteByte('\n')
			}
		}
		f.data = []byte(sb.String())
	}
	f.flips = digits(f.data, 0)
	f.load = func() []Leaf {
		X, Y := load()
		return append(matLeaf("X", X), matLeaf("Y", Y)...)
	}
	f.truth = func(b []byte) ([]Leaf, bool) {
		rows, ok := numbers(strings.Split(string(b), "\n"))
		if !ok || len(rows[0]) < 2 {
			return nil, false
		}
		X, Y := make([][]float64, len(rows)), make([][]float64, len(rows))
		for i, r := range rows {
			X[i], Y[i] = r[:len(r)-1], r[len(r)-1:]
		}
		return append(rowsLeaf("X", X), rowsLeaf("Y", Y)...), true
	}
	return f
}

// numbers reads comma separated numbers, the same count on every line.
func numbers(lines []string) (rows [][]float64, ok bool) {
	for _, l := range lines {
		if l = strings.TrimSuffix(l, "\r"); l == "" {
			continue
		}
		var row []float64
		for _, s := range strings.Split(l, ",") {
			v, err := strconv.ParseFloat(s, 64)
			if err != nil {
				return nil, false
			}
			row = append(row, v)
		}
		if len(rows) > 0 && len(row) != len(rows[0]) {
			return nil, false
		}
		rows = append(rows, row)
	}
	return rows, len(rows) > 0
}

func airlineFile(r *Rng) *ioFile {
	f := &ioFile{name: "international-airline-passengers.csv", kind: "csv with heading"}
	if real := realData(f.name); real != nil && r.Chance(4) {
		f.data = real
	} else {
		n := 1 + r.Intn(60)
		if r.Chance(6) {
			n = 300 + r.Intn(300)
		}
		head := "\"Month\",\"Passengers\"\n"
		if r.Chance(4) {
			head = "\"Month\",\"" + strings.Repeat("long heading ", 300) + "\"\n"
			if r.Bool() { // bigger than the read buffer of a buffered reader
				head = "\"Month\",\"" + strings.Repeat("x", r.PickI(4090, 4095, 4096, 4097, 9000)) + "\"\n"
			}
			if len(head) > 4000 { // the loader skips one buffer-full of heading: kept below it
				head = head[:3990] + "\"\n"
			}
		}
		var sb strings.Builder
		sb.WriteString(head)
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, "\"%d-%02d\",%d\n", 1949+i/12, 1+i%12, r.Intn(1000))
		}
		f.data = []byte(sb.String())
	}
	f.flips = nil
	for i, b := range f.data {
		if b >= '0' && b <= '9' && i > 0 {
			s := f.data[:i]
			if j := bytes.LastIndexByte(s, ','); j >= 0 && bytes.IndexByte(s[j:], '\n') < 0 && bytes.IndexByte(s, '\n') >= 0 {
				f.flips = append(f.flips, int64(i))
			}
		}
	}
	f.load = func() []Leaf { return matLeaf("Y", datasets.LoadInternationalAirlinesPassengers()) }
	f.truth = func(b []byte) ([]Leaf, bool) {
		lines := strings.Split(string(b), "\n")
		var rows [][]float64
		for _, l := range lines[1:] {
			if l = strings.TrimSuffix(l, "\r"); l == "" {
				continue
			}
			p := strings.Split(l, ",")
			if len(p) != 2 || strings.Count(p[0], "\"") != 2 {
				return nil, false
			}
			v, err := strconv.ParseFloat(p[1], 64)
			if err != nil {
				return nil, false
			}
			rows = append(rows, []float64{v})
		}
		return rowsLeaf("Y", rows), len(rows) > 0
	}
	return f
}

type jsonSet struct {
	Data         [][]float64 `json:"data"`
	Target       []float64   `json:"target"`
	TargetNames  []string    `json:"target_names"`
	DESCR        string      `json:"DESCR"`
	FeatureNames []string    `json:"feature_names"`
}

func jsonFile(r *Rng, name string, load func() *datasets.MLDataset) *ioFile {
	f := &ioFile{name: name, kind: "json"}
	if real := realData(name); real != nil && len(real) < 30000 && r.Chance(4) {
		f.data, f.kind = real, "json as shipped"
	} else {
		n, c := 1+r.Intn(30), 1+r.Intn(5)
		if r.Chance(6) {
			n = 200
		}
		var s jsonSet
		for i := 0; i < n; i++ {
			row := make([]float64, c)
			for j := range row {
				row[j] = num(r)
			}
			s.Data = append(s.Data, row)
			s.Target = append(s.Target, float64(r.Intn(3)))
		}
		for j := 0; j < c; j++ {
			s.FeatureNames = append(s.FeatureNames, fmt.Sprintf("feature %d", j))
		}
		s.TargetNames = []string{"a", "b", "c"}
		s.DESCR = strings.Repeat("about ", r.Intn(40))
		f.data, _ = json.Marshal(s)
	}
	f.flips = digits(f.data, 0)
	if i := bytes.Index(f.data, []byte("]]")); i > 0 { // the numbers of the data table
		f.flips = nil
		for _, p := range digits(f.data, bytes.Index(f.data, []byte("[["))) {
			if int(p) < i && f.data[p-1] >= '0' && f.data[p-1] <= '9' { // not a leading digit (JSON forbids 01)
				f.flips = append(f.flips, p)
			}
		}
	}
	f.load = func() []Leaf {
		d := load()
		out := append(matLeaf("X", d.X), matLeaf("Y", d.Y)...)
		out = append(out, Leaf{Path: "names", S: fmt.Sprint(d.TargetNames, d.FeatureNames, len(d.Data), len(d.Target), d.DESCR)})
		d.TargetNames, d.FeatureNames, d.DESCR = nil, nil, "spoilt"
		return out
	}
	f.truth = func(b []byte) ([]Leaf, bool) {
		var s jsonSet
		dec := json.NewDecoder(bytes.NewReader(b))
		if dec.Decode(&s) != nil {
			return nil, false
		}
		if _, err := dec.Token(); err != io.EOF || len(s.Data) == 0 || len(s.Data) != len(s.Target) {
			return nil, false
		}
		Y := make([][]float64, len(s.Target))
		for i, v := range s.Target {
			Y[i] = []float64{v}
			if len(s.Data[i]) != len(s.FeatureNames) {
				return nil, false
			}
		}
		out := append(rowsLeaf("X", s.Data), rowsLeaf("Y", Y)...)
		return append(out, Leaf{Path: "names", S: fmt.Sprint(s.TargetNames, s.FeatureNames, len(s.Data), len(s.Target), s.DESCR)}), true
	}
	return f
}

var realCache = map[string][]byte{}

func realData(name string) []byte {
	if b, ok := realCache[name]; ok {
		return b
	}
	b, err := os.ReadFile(filepath.Join("/repo/datasets/data", name))
	if err != nil {
		b = nil
	}
	realCache[name] = b
	return b
}

// octave binary files
func octaveBytes(r *Rng, names []string) (b []byte, safe []int64) {
	var w bytes.Buffer
	u32 := func(v int) {
		var t [4]byte
		binary.LittleEndian.PutUint32(t[:], uint32(v))
		w.Write(t[:])
	}
	mark := func(n int) {
		for i := 0; i < n; i++ {
			safe = append(safe, int64(w.Len()+i))
		}
	}
	mark(10)
	w.WriteString("Octave-1-L")
	mark(1)
	w.WriteByte(0)
	for _, nm := range names {
		u32(len(nm))
		w.WriteString(nm)
		u32(0)
		w.WriteByte(0)
		mark(1)
		w.WriteByte(0xff)
		u32(6)
		mark(6)
		w.WriteString("matrix")
		w.Write([]byte{0xfe, 0xff, 0xff, 0xff})
		rows, cols := 1+r.Intn(6), 1+r.Intn(6)
		switch r.Intn(12) {
		case 0:
			rows, cols = 60+r.Intn(60), 60+r.Intn(60) // larger than the loader's buffer
		case 1:
			rows, cols = 1, 1
		}
		u32(rows)
		u32(cols)
		w.WriteByte(7)
		mark(8 * rows * cols)
		for i := 0; i < rows*cols; i++ {
			var t [8]byte
			binary.LittleEndian.PutUint64(t[:], math.Float64bits(num(r)))
			w.Write(t[:])
		}
	}
	return w.Bytes(), safe
}

// octaveRead is an independent, strict reader of the same format.
func octaveRead(b []byte) ([]Leaf, bool) {
	if len(b) < 11 || string(b[:10]) != "Octave-1-L" {
		return nil, false
	}
	b = b[11:]
	vars := map[string]*mat.Dense{}
	next := func(n int) []byte {
		if n < 0 || n > len(b) {
			return nil
		}
		t := b[:n:n]
		b = b[n:]
		return t
	}
	u32 := func() int {
		t := next(4)
		if t == nil {
			return -1
		}
		return int(binary.LittleEndian.Uint32(t))
	}
	for len(b) > 0 {
		n := u32()
		name := next(n)
		if n < 0 || name == nil || next(5) == nil {
			return nil, false
		}
		if t := next(1); t == nil || t[0] != 0xff {
			return nil, false
		}
		k := u32()
		if typ := next(k); k < 0 || string(typ) != "matrix" || next(4) == nil {
			return nil, false
		}
		rows, cols := u32(), u32()
		if rows <= 0 || cols <= 0 || next(1) == nil || rows*cols > len(b)/8 {
			return nil, false
		}
		m := mat.NewDense(rows, cols, nil)
		for j := 0; j < cols; j++ {
			for i := 0; i < rows; i++ {
				m.Set(i, j, math.Float64frombits(binary.LittleEndian.Uint64(next(8))))
			}
		}
		vars[string(name)] = m
	}
	return Dump(vars), true
}

func gunzip(b []byte) ([]byte, bool) {
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, false
	}
	out, err := io.ReadAll(z)
	return out, err == nil
}

func octaveFile(r *Rng, i int, gz bool) *ioFile {
	f := &ioFile{kind: "octave"}
	names := []string{"X", "y", "Theta1", "a longer name"}[:1+r.Intn(4)]
	raw, safe := octaveBytes(r, names)
	path := fmt.Sprintf("/nowhere/file%d.bin", i)
	f.load = func() []Leaf { return take(datasets.LoadOctaveBin(path)) }
	f.data, f.flips, f.truth = raw, safe, octaveRead
	if gz {
		path += ".gz"
		f.kind = "octave, gzip"
		switch {
		case i == 0:
			f.load = func() []Leaf {
				a, b := datasets.LoadMnistWeights()
				return take(map[string]*mat.Dense{"Theta1": a, "Theta2": b})
			}
			raw, safe = octaveBytes(r, []string{"Theta1", "Theta2"})
			path = "ex4weights.dat.gz"
		case i == 1:
			f.load = func() []Leaf {
				a, b := datasets.LoadMnist()
				return take(map[string]*mat.Dense{"X": a, "y": b})
			}
			raw, safe = octaveBytes(r, []string{"X", "y"})
			path = "ex4data1.dat.gz"
		}
		var w bytes.Buffer
		level := gzip.NoCompression
		if r.Bool() {
			level = gzip.BestSpeed
			f.kind = "octave, gzip, compressed"
		}
		z, _ := gzip.NewWriterLevel(&w, level)
		z.Write(raw)
		z.Close()
		f.data = w.Bytes()
		f.flips = nil
		if level == gzip.NoCompression { // header, then stored blocks: 10 + 5 bytes before the first of them
			for _, p := range safe {
				if p < 60000 {
					f.flips = append(f.flips, p+15)
				}
			}
		}
		for k := int64(1); k <= 8; k++ { // checksum and length
			f.flips = append(f.flips, int64(len(f.data))-k)
		}
		f.flips = append(f.flips, 0, 1, 4, 5, 6, 7)
		f.truth = func(b []byte) ([]Leaf, bool) {
			raw, ok := gunzip(b)
			if !ok {
				return nil, false
			}
			return octaveRead(raw)
		}
	}
	f.name = filepath.Base(path)
	return f
}

func drawIOFile(r *Rng, i int) *ioFile {
	return ioFileOf(r, i, r.Intn(10))
}

func ioFileOf(r *Rng, i, which int) *ioFile {
	f := ioFileMade(r, i, which)
	f.which, f.index = which, i
	return f
}

func ioFileMade(r *Rng, i, which int) *ioFile {
	switch which {
	case 0:
		return csvFile(r, "ex2data1.txt", datasets.LoadExamScore)
	case 1:
		return csvFile(r, "ex2data2.txt", datasets.LoadMicroChipTest)
	case 2:
		return airlineFile(r)
	case 3:
		k := r.Intn(5)
		return jsonFile(r, []string{"iris.json", "cancer.json", "diabetes.json", "boston.json", "wine.json"}[k],
			[]func() *datasets.MLDataset{datasets.LoadIris, datasets.LoadBreastCancer, datasets.LoadDiabetes, datasets.LoadBoston, datasets.LoadWine}[k])
	case 4, 5:
		return octaveFile(r, 0, true)
	case 6:
		return octaveFile(r, 1, true)
	case 7:
		return octaveFile(r, 2+i, true)
	}
	return octaveFile(r, 2+i, false)
}

func c15loaders(c *C) {
	r := c.R
	nf := 1
	if r.Chance(3) {
		nf = 2 + r.Intn(2)
	}
	var fs []*ioFile
	byName := map[string]*ioFile{}
	for len(fs) < nf {
		f := drawIOFile(r, len(fs))
		if byName[f.name] == nil {
			byName[f.name] = f
			fs = append(fs, f)
			c.Desc("%s (%s, %d bytes)", f.name, f.kind, len(f.data))
			c.Probe("file " + f.kind)
		}
	}
	verifsim.Loaded = func(name string) ([]byte, error) {
		if f := byName[filepath.Base(name)]; f != nil {
			return f.data, nil
		}
		return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrNotExist}
	}
	defer func() { verifsim.Loaded = nil }()
	if r.Chance(3) { // the files had other contents before, and have been loaded then
		now := map[string][]byte{}
		for _, f := range fs {
			now[f.name] = f.data
			for k := 0; k < 5; k++ {
				if old := ioFileOf(r, f.index, f.which); old.name == f.name {
					f.data = old.data
					break
				}
			}
		}
		c.Ref("earlier", func() {
			for _, f := range fs {
				f.load()
			}
		})
		for _, f := range fs {
			f.data = now[f.name]
		}
		c.Desc("loaded before with other contents")
	}
	bad := fs[r.Intn(nf)]
	cfg := c.SimCfg()
	io := &cfg.IO
	s := c.S
	harm := ""
	if s.Chance(5) { // legal behaviour only
		io.PShort, io.PZero, io.PEOFData = s.PickI(0, 64, 200, 256), s.PickI(0, 0, 16, 64), s.PickI(0, 128, 256)
	} else {
		io.Only = bad.name
		io.PShort, io.PZero, io.PEOFData = s.PickI(0, 0, 64, 220), s.PickI(0, 0, 16), s.PickI(0, 128, 256)
		n := int64(len(bad.data))
		pos := func() int64 {
			switch s.Intn(4) {
			case 0:
				return int64(s.Intn(int(n)))
			case 1: // near the start
				return int64(s.Intn(int(min(n, 64))))
			case 2: // near the end
				return n - 1 - int64(s.Intn(int(min(n, 40))))
			}
			return min(n-1, int64(s.PickI(10, 11, 15, 512, 4096, 65536))+int64(s.Range(-2, 2)))
		}
		switch s.Intn(5) {
		case 0:
			harm = "open"
			io.POpen = 256
		case 1:
			harm = "read error"
			if s.Chance(3) {
				io.PError = s.PickI(8, 64, 256)
			} else {
				io.ErrAt = 1 + max(0, pos())
			}
		case 2, 3:
			harm = "truncation"
			io.TruncAt = 1 + max(0, pos())
		default:
			harm = "corruption"
			if len(bad.flips) == 0 {
				return
			}
			p := bad.flips[s.Intn(len(bad.flips))]
			io.FlipAt = p + 1
			io.FlipBits = int64(1) << uint(s.Intn(8))
			if !strings.HasPrefix(bad.kind, "octave") { // another digit, or something that is no number
				d := bad.data[p]
				io.FlipBits = int64(d ^ byte('0'+s.Intn(10)))
				if s.Chance(4) {
					io.FlipBits = int64(d ^ '!')
				}
				if io.FlipBits == 0 {
					io.FlipBits = int64(d ^ '!')
				}
			}
		}
	}
	conc := nf > 1 && r.Bool()
	c.Desc("faults on %s: %s %+v", io.Only, harm, *io)
	one := func(i int) {
		f := fs[i]
		defer func() {
			if e := recover(); e != nil {
				f.fail = fmt.Sprint(e)
				if f.fail == "" {
					f.fail = "panic"
				}
			}
		}()
		f.got = f.load()
	}
	res := c.SimWith("load", cfg, func() {
		if conc {
			par(nf, one)
		} else {
			for i := range fs {
				one(i)
			}
		}
	})
	c.Check(res.OpenFiles == 0, "file-left-open", "%d file(s) still open after the loaders returned", res.OpenFiles)
	for _, f := range fs {
		data, hurt := f.data, false
		if f == bad && harm != "" {
			hurt = res.IOFaults[verifsim.IOError]+res.IOFaults[verifsim.IOOpen] > 0
			if res.IOFaults[verifsim.IOTrunc] > 0 {
				data, hurt = data[:io.TruncAt-1], true
			}
			if res.IOFaults[verifsim.IOCorrupt] > 0 {
				data, hurt = append([]byte(nil), data...), true
				data[io.FlipAt-1] ^= byte(io.FlipBits)
			}
		}
		want, ok := f.truth(data)
		if f.fail != "" {
			c.Check(hurt, "needless-failure", "%s (%s): loading an intact file failed (%s) although the file system only returned legal results", f.name, f.kind, f.fail)
			c.Probe("failed visibly: " + harm)
			continue
		}
		if hurt {
			c.Probe("answered in spite of: " + harm)
		}
		c.Check(ok, "bad-file-accepted", "%s (%s): %s at offset %d left no complete file, yet the loader returned data as if nothing had happened", f.name, f.kind, harm, max(io.TruncAt, io.FlipAt)-1)
		if d := DiffLeaves(want, f.got, 0); d != "" {
			c.Fail("wrong-data", "%s (%s): loaded data differ from the file's (%s): %s", f.name, f.kind, harm, d)
		}
		c.st.Checks++
	}
}
