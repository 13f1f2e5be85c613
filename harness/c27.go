package main

import (
	"bytes"
	"os"

	nn "github.com/cubeflix/nn"
)

// c27model is a model of two layers of the kind and its neighbour.
func c27model(k int) (*nn.Model, []part, settings) {
	ps := anyParts([]int{k, (k + 1) % 6}, []int{1, 2, 1})
	s := anySettings(k%2 == 1)
	return assemble(ps, k%4, s, nn.AccuracyType(k%3), 0.5), ps, s
}

// holds claims that a file holds exactly the bytes of the model.
func holdsModel(fn string, m *nn.Model, k int, ps []part, s settings, label string) {
	data, err := os.ReadFile(fn)
	vAssert(err == nil, label+": the file can be read")
	if err != nil {
		return
	}
	vAssert(len(data) == len(serialized(m, "a model is serialized")), label+": size of the file")
	buf := bytes.NewBuffer(data)
	r, err := nn.LoadModel(buf)
	vAssert(err == nil, label+": what the file holds is loaded")
	if err != nil {
		return
	}
	vAssert(buf.Len() == 0, label+": the file holds nothing else")
	isModel(&r, ps, k%4, s, nn.AccuracyType(k%3), 0.5, label+": the model in the file")
}

// Saving to a new file or over one of 0..2 or 4000 bytes, and loading it: two
// layers of every kind, any parameters and settings.
//v: maporder=ends
func H_C27_Save() {
	k := vPick("kind", 6)
	m, ps, s := c27model(k)
	was := copies(ps)
	fn := vTempDir() + "/model.nn"
	if old := vPick("old", 5); old > 0 {
		n := []int{0, 1, 2, 4000}[old-1]
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i)
		}
		if n > 1 {
			b[n-1], b[n/2] = vByte("old"), vByte("old")
		}
		vAssert(os.WriteFile(fn, b, 0644) == nil, "write")
	}
	vAssert(nn.SaveFile(m, fn) == nil, "the model is saved")
	isModel(m, was, k%4, s, nn.AccuracyType(k%3), 0.5, "saving leaves the model unchanged")
	holdsModel(fn, m, k, was, s, "saved")
	r, err := nn.LoadFile(fn)
	vAssert(err == nil, "the file is loaded")
	if err == nil {
		isModel(&r, was, k%4, s, nn.AccuracyType(k%3), 0.5, "the loaded model")
	}
	holdsModel(fn, m, k, was, s, "loading leaves the file")
}

// A second save replaces the first.
func H_C27_Twice() {
	k, j := vPick("kind", 6), vPick("other", 6)
	m, _, _ := c27model(k)
	o, ps, s := c27model(j)
	fn := vTempDir() + "/model.nn"
	vAssert(nn.SaveFile(m, fn) == nil, "the model is saved")
	vAssert(nn.SaveFile(o, fn) == nil, "the other model is saved")
	holdsModel(fn, o, j, ps, s, "saved")
}

// Up to two failures of the file system while saving, at any operation, over an
// old file or none; writes may be cut short.
func H_C27_SaveFaults() {
	k := vPick("kind", tiered(2, 6))
	m, ps, s := c27model(k)
	fn := vTempDir() + "/model.nn"
	if vPick("old", 2) == 1 {
		vAssert(os.WriteFile(fn, []byte("something"), 0644) == nil, "write")
	}
	vFaults(size("faults", 2))
	err := nn.SaveFile(m, fn)
	vFaults(0)
	if err == nil {
		vReach("saved")
		vAssert(!vFaulted(), "a failure to write the file is reported")
		holdsModel(fn, m, k, ps, s, "saved")
	} else {
		vReach("failed")
		vAssert(vFaulted(), "an error only when something failed")
	}
}

// Names that cannot be created.
func H_C27_BadName() {
	m, _, _ := c27model(0)
	d := vTempDir()
	fn := []string{d, d + "/no/such/directory", ""}[vPick("name", 3)]
	vAssert(nn.SaveFile(m, fn) != nil, "a file that cannot be created is reported")
	_, err := nn.LoadFile(fn)
	vAssert(err != nil, "a file that cannot be read is reported")
	_, err = nn.LoadFile(d + "/missing")
	vAssert(err != nil, "a missing file is reported")
	vAssert(nn.SaveFile(m, d+"/fine") == nil, "other files can be created")
}

// A model that cannot be serialized, because the parameters of its first, second
// or third layer do not fit or there are too many layers: the error is reported
// and what was in the file stays there.
func H_C27_Unserializable() {
	n := 3
	what := vPick("what", 4)
	if what == 3 {
		n = 128
	}
	kinds, sizes := make([]int, n), make([]int, n+1)
	for i := range sizes {
		sizes[i] = 1
	}
	ps := symParts(kinds, sizes)
	m := assemble(ps, kMSE, exactSGD(), nn.RegressionAccuracyType, 0.5)
	if what < 3 {
		if vPick("biases", 2) == 1 {
			*ps[what].b = mat("b", 1, 2)
		} else {
			*ps[what].w = mat("w", 2, 1)
		}
	}
	fn := vTempDir() + "/model.nn"
	old := vPick("old", 2) == 1
	b := []byte{vByte("old"), vByte("old"), vByte("old")}
	if old {
		vAssert(os.WriteFile(fn, b, 0644) == nil, "write")
	}
	vAssert(nn.SaveFile(m, fn) != nil, "a model that cannot be serialized is reported")
	got, err := os.ReadFile(fn)
	if old {
		vAssert(err == nil, "the file still exists")
		sameBytes(got, b, "the file is left intact")
	} else {
		vAssert(err != nil || len(got) == 0, "no file is made up")
	}
}

// Files cut short anywhere, and the whole one.
func H_C27_Short() {
	k := vPick("kind", tiered(2, 6))
	m, ps, s := c27model(k)
	data := serialized(m, "a model is serialized")
	n := vPick("length", len(data)+1)
	fn := vTempDir() + "/model.nn"
	vAssert(os.WriteFile(fn, data[:n], 0644) == nil, "write")
	r, err := nn.LoadFile(fn)
	vAssert((err == nil) == (n == len(data)), "a short file is reported")
	if err == nil {
		isModel(&r, ps, k%4, s, nn.AccuracyType(k%3), 0.5, "the loaded model")
	}
}

// Up to two failures of the file system while loading, at any operation: an
// error or the right model.
func H_C27_LoadFaults() {
	k := vPick("kind", tiered(2, 6))
	m, ps, s := c27model(k)
	fn := vTempDir() + "/model.nn"
	vAssert(os.WriteFile(fn, serialized(m, "a model is serialized"), 0644) == nil, "write")
	vFaults(size("faults", 2))
	r, err := nn.LoadFile(fn)
	vFaults(0)
	if err == nil {
		vReach("loaded")
		isModel(&r, ps, k%4, s, nn.AccuracyType(k%3), 0.5, "the loaded model")
	} else {
		vReach("failed")
		vAssert(vFaulted(), "an error only when something failed")
	}
}

// A model of which the file has more than 64 KB: 1x9000 or 9000x1 (thorough: also
// 300x300), most parameters being numbers, the first and last any.
func H_C27_Big() {
	t := [][]int{{1, 9000}, {9000, 1}, {300, 300}}[vPick("shape", tiered(2, 3))]
	q := part{kind: kLinear}
	l, w, b, err := newLayer(kLinear, t[0], t[1], 0, 0)
	vAssert(err == nil, "layer")
	q.l, q.w, q.b = l, w, b
	for i := range w.M {
		for j := range w.M[i] {
			w.M[i][j] = float64(i*t[1]+j) / 8
		}
	}
	for j := range b.M[0] {
		b.M[0][j] = -float64(j)
	}
	w.M[0][0], w.M[t[0]-1][t[1]-1] = vFloat("w"), vFloat("w")
	b.M[0][0], b.M[0][t[1]-1] = vFloat("b"), vFloat("b")
	cw, cb := clone(*w), clone(*b)
	m := assemble([]part{q}, kMSE, exactSGD(), nn.RegressionAccuracyType, 0.5)
	fn := vTempDir() + "/model.nn"
	vAssert(nn.SaveFile(m, fn) == nil, "the model is saved")
	r, err := nn.LoadFile(fn)
	vAssert(err == nil, "the file is loaded")
	if err != nil || len(r.Layers) != 1 {
		vAssert(err != nil, "one layer")
		return
	}
	isLayer(r.Layers[0], kLinear, 0, 0, cw, cb, "the loaded layer")
}

// Saving over a file that is as long as the new one, or up to 3 bytes shorter or
// longer, or of twice its size.
//v: maporder=ends
func H_C27_Near() {
	k := vPick("kind", tiered(2, 6))
	m, ps, s := c27model(k)
	fn := vTempDir() + "/model.nn"
	n := len(serialized(m, "a model is serialized"))
	n = []int{n - 3, n - 1, n, n + 1, n + 2, n + 3, 2 * n}[vPick("old", 7)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)
	}
	b[n-1] = vByte("old")
	vAssert(os.WriteFile(fn, b, 0644) == nil, "write")
	vAssert(nn.SaveFile(m, fn) == nil, "the model is saved")
	holdsModel(fn, m, k, ps, s, "saved")
}
