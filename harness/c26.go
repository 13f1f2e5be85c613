package main

import (
	"bytes"
	"math"

	nn "github.com/cubeflix/nn"
)

// reader takes bytes apart by hand, little end first.
type reader struct {
	b  []byte
	at int
}

func (r *reader) next(n int) []byte {
	vAssert(r.at+n <= len(r.b), "the data is complete")
	if r.at+n > len(r.b) {
		r.b = append(append([]byte{}, r.b...), make([]byte, r.at+n-len(r.b))...)
	}
	r.at += n
	return r.b[r.at-n : r.at]
}

func (r *reader) str(s, label string) {
	b := r.next(len(s))
	ok := true
	for i := range b {
		ok = ok && b[i] == s[i]
	}
	vAssert(ok, label)
}

func (r *reader) byte(want int, label string) { vAssert(r.next(1)[0] == byte(want), label) }

func (r *reader) int32(want int, label string) {
	u := uint32(0)
	for k, x := range r.next(4) {
		u |= uint32(x) << (8 * k)
	}
	vAssert(int(int32(u)) == want, label)
}

func (r *reader) float() float64 {
	u := uint64(0)
	for k, x := range r.next(8) {
		u |= uint64(x) << (8 * k)
	}
	return math.Float64frombits(u)
}

func (r *reader) matrix(m nn.Matrix, label string) {
	for i := range m.M {
		for j := range m.M[i] {
			vSame(r.float(), m.M[i][j], label)
		}
	}
}

func (r *reader) layer(p part) {
	r.str("LA", "magic of the layer")
	r.byte(p.kind, "kind of the layer")
	r.int32(p.w.Rows, "input size of the layer")
	r.int32(p.w.Cols, "output size of the layer")
	slope, rate := r.float(), r.float()
	if p.kind == kLeaky {
		vSame(slope, p.slope, "slope of the layer")
	}
	if p.kind == kDropout {
		vSame(rate, p.rate, "dropout of the layer")
	}
	r.matrix(*p.w, "weights, row by row")
	r.matrix(*p.b, "biases")
}

// Layers of every kind and sizes 1..3 (and 300x1 and 1x300) with any values are
// written as documented.
func H_C26_WriteLayer() {
	s := []int{size("in", 4), size("out", 4)}
	if s[0] == 4 {
		s = []int{300, 1}
		vAssume(vPick("large", 2) == 0)
	} else if s[1] == 4 {
		s = []int{1, 300}
	}
	ps := anyParts([]int{vPick("kind", 6)}, s)
	r := &reader{b: saved(ps[0].l, "a layer is saved")}
	r.layer(ps[0])
	vAssert(r.at == len(r.b), "nothing else is written")
}

// Layers in the documented layout are loaded to the values they spell out:
// every kind, sizes 1..3 (and 300x1 and 1x300), any values in all fields.
func H_C26_ReadLayer() {
	in, out, kind := size("in", 4), size("out", 4), vPick("kind", 6)
	if in == 4 {
		in, out = 300, 1
	} else if out == 4 {
		in, out = 1, 300
	}
	w := &writer{}
	slope, rate := vFloat("slope"), vFloat("rate")
	vAssume(slope >= 0 && rate >= 0 && rate <= 1)
	m, b := matAny("w", in, out), matAny("b", 1, out)
	w.layer(kind, in, out, slope, rate, m, b)
	l, err := nn.LoadLayer(bytes.NewBuffer(w.b))
	vAssert(err == nil, "data in the documented layout is loaded")
	if err == nil {
		isLayer(l, kind, slope, rate, m, b, "the loaded layer")
	}
}

// c26 writes a model and reads the data.
func c26(kinds, sizes []int, loss int, adam bool, acc nn.AccuracyType) {
	ps := anyParts(kinds, sizes)
	s := anySettings(adam)
	precision := vFloat("precision")
	vAssume(precision >= 0)
	m := assemble(ps, loss, s, acc, precision)
	n := len(ps)
	r := &reader{b: serialized(m, "a model is saved")}
	r.str("NNML", "magic")
	r.str(nn.VERSION, "version")
	vAssert(len(nn.VERSION) == 5, "length of the version")
	r.byte(n, "layer count")
	r.int32(sizes[0], "input size")
	r.int32(sizes[n], "output size")
	r.byte(loss, "loss kind")
	r.byte(int(acc), "accuracy kind")
	vSame(r.float(), precision, "accuracy precision")
	opt := 0
	if adam {
		opt = 1
	}
	r.byte(opt, "optimizer kind")
	es := s.entries(0)
	r.byte(len(es), "number of settings")
	found := make([]bool, len(es))
	for range es {
		n := r.next(1)[0]
		k := string(r.next(int(n)))
		v := r.float()
		for i, e := range es {
			if e.key == k {
				vAssert(!found[i], "every setting once")
				found[i] = true
				vSame(v, e.val, "value of the setting")
			}
		}
	}
	for i := range found {
		vAssert(found[i], "every setting")
	}
	for _, p := range ps {
		r.layer(p)
	}
	vAssert(r.at == len(r.b), "nothing else is written")
}

// Models of two layers, every kind, loss and accuracy, any settings, precision
// and parameters, are written as documented; SGD with its settings in any order.
//v: maporder=all
func H_C26_WriteSGD() {
	k := vPick("kind", 6)
	acc := nn.AccuracyType(k % 3)
	if vTier() > 0 {
		acc = nn.AccuracyType(vPick("accuracy", 3))
	}
	c26([]int{k, (k + 1) % 6}, []int{1, 2, 3}, vPick("loss", 4), false, acc)
}

// As above with Adam; settings in their order or the opposite one.
//v: maporder=ends
func H_C26_WriteAdam() {
	k := vPick("kind", 6)
	c26([]int{(k + 2) % 6, k}, []int{3, 1, 2}, vPick("loss", 4), true, nn.AccuracyType((k+1)%3))
}

// A wide model of three layers: sizes 2, 300, 1, 257.
func H_C26_WriteWide() {
	c26([]int{kLinear, kSigmoid, kLeaky}, []int{2, 300, 1, 257}, kMAE, false, nn.RegressionAccuracyType)
}

// read26 loads data in the documented layout.
func read26(version string, kinds, sizes []int, loss int, s settings, order []entry, acc int) {
	n := len(kinds)
	w := &writer{}
	precision := vFloat("precision")
	vAssume(precision >= 0)
	opt := 0
	if s.adam {
		opt = 1
	}
	w.header(version, n, sizes[0], sizes[n], loss, acc, precision, opt, order)
	ps := make([]part, n)
	for i, k := range kinds {
		p := part{kind: k, slope: vFloat("slope"), rate: vFloat("rate")}
		vAssume(p.slope >= 0 && p.rate >= 0 && p.rate <= 1)
		m, b := matAny("w", sizes[i], sizes[i+1]), matAny("b", 1, sizes[i+1])
		p.w, p.b = &m, &b
		w.layer(k, sizes[i], sizes[i+1], p.slope, p.rate, m, b)
		ps[i] = p
	}
	buf := bytes.NewBuffer(w.b)
	m, err := nn.LoadModel(buf)
	vAssert(err == nil, "data in the documented layout is loaded")
	if err == nil {
		isModel(&m, ps, loss, s, nn.AccuracyType(acc), precision, "the loaded model")
		vAssert(buf.Len() == 0, "all of the data is read")
	}
}

// Models in the documented layout are loaded to the values they spell out: two
// layers, every kind, loss, accuracy and optimizer, settings in every rotation
// of their order and its opposite, any values.
func H_C26_ReadModel() {
	k, acc := vPick("kind", 6), vPick("accuracy", 3)
	loss, adam := vPick("loss", 4), vPick("adam", 2) == 1
	s := anySettings(adam)
	es := s.entries(vPick("order", tiered(3, 5)))
	if vPick("backwards", 2) == 1 {
		for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
			es[i], es[j] = es[j], es[i]
		}
	}
	read26("1.0.3", []int{k, (k + 1) % 6}, []int{2, 1, 2}, loss, s, es, acc)
}

// One to four layers; sizes up to 300.
func H_C26_ReadDeep() {
	n := size("layers", 4)
	k := vPick("kind", 6)
	var kinds []int
	for i := 0; i < n; i++ {
		kinds = append(kinds, (k+i)%6)
	}
	sizes := [][]int{{1, 2, 3, 1, 2}, {300, 1, 257, 1, 2}}[vPick("sizes", 2)]
	s := exactMomentum()
	read26("1.0.3", kinds, sizes[:n+1], kBCE, s, s.entries(0), 2)
}

// A model that says it is of another version is loaded as well.
func H_C26_Version() {
	v := string([]byte{vByte("v"), '.', vByte("v"), '.', vByte("v")})
	s := exactAdam()
	read26(v, []int{kLinear}, []int{1, 1}, kMSE, s, s.entries(1), 0)
}

// Wrong magic bytes of any kind are refused, of models and of their layers.
func H_C26_Magic() {
	w := &writer{}
	what := vPick("what", 3)
	if what < 2 {
		s := exactSGD()
		w.header("1.0.3", 1, 1, 1, 0, 0, 0.5, 0, s.entries(0))
	}
	at := len(w.b)
	w.layer(kLinear, 1, 1, 0, 0, matAny("w", 1, 1), matAny("b", 1, 1))
	var err error
	ok := true
	switch what {
	case 0:
		for i := 0; i < 4; i++ {
			w.b[i] = vByte("magic")
			ok = ok && w.b[i] == "NNML"[i]
		}
		_, err = nn.LoadModel(bytes.NewBuffer(w.b))
	default:
		for i := 0; i < 2; i++ {
			w.b[at+i] = vByte("magic")
			ok = ok && w.b[at+i] == "LA"[i]
		}
		if what == 1 {
			_, err = nn.LoadModel(bytes.NewBuffer(w.b))
		} else {
			_, err = nn.LoadLayer(bytes.NewBuffer(w.b))
		}
	}
	vAssert((err == nil) == ok, "loaded exactly with the right magic bytes")
}

// Kinds out of range of any value are refused: of layers, losses and optimizers.
func H_C26_Kinds() {
	s := exactSGD()
	w := &writer{}
	w.header("1.0.3", 1, 1, 1, 0, 0, 0.5, 0, s.entries(0))
	at := len(w.b)
	w.layer(kLinear, 1, 1, 0, 0, matAny("w", 1, 1), matAny("b", 1, 1))
	b := vByte("kind")
	i, n := 0, 0
	switch vPick("what", 3) {
	case 0:
		i, n = at+2, 6
	case 1:
		i, n = 18, 4
	case 2:
		i, n = 28, 2
	}
	w.b[i] = b
	m, err := nn.LoadModel(bytes.NewBuffer(w.b))
	if int(b) >= n {
		vAssert(err != nil, "an unknown kind is refused")
	} else if i != 28 {
		vAssert(err == nil, "a known kind is loaded")
	}
	_ = m
}

// Settings under other names, before, between or after the known ones, change
// nothing: near misses of known names, the empty name, one of 127 bytes.
func H_C26_OtherSettings() {
	s := []settings{exactMomentum(), exactAdam(), exactSGD()}[vPick("optimizer", 3)]
	es := s.entries(0)
	long := make([]byte, 127)
	for i := range long {
		long[i] = 'k'
	}
	near := es[vPick("of", len(es))].key
	k := []string{near + " ", " " + near, near + "\x00", near[1:], near[:len(near)-1], "", string(long), "type"}[vPick("name", 8)]
	at := vPick("at", len(es)+1)
	var all []entry
	for i := 0; i <= len(es); i++ {
		if i == at {
			all = append(all, entry{k, vFloat("other")})
		}
		if i < len(es) {
			all = append(all, es[i])
		}
	}
	read26("1.0.3", []int{kLinear}, []int{1, 1}, kMSE, s, all, 0)
}

// One hundred and more settings of other names.
func H_C26_ManySettings() {
	s := exactMomentum()
	all := s.entries(1)
	for i := 0; i < 100; i++ {
		all = append(all, entry{string([]byte{'a' + byte(i%26), 'A' + byte(i/26)}), float64(i)})
	}
	read26("1.0.3", []int{kLinear}, []int{1, 1}, kMSE, s, all, 0)
}
