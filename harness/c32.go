package main

import (
	"bytes"
	"os"

	nn "github.com/cubeflix/nn"
)

const (
	logNone = iota
	logQuiet
	logVerbose
	logFile
	logFileVerbose
	logRefused
	logVerboseQuiet
	logQuietVerbose
	logFileQuiet
	logKinds
)

var oldLog = "earlier\n"

// logging sets the loggers up in one of the ways and returns the log file.
func logging(kind int) string {
	dir := vTempDir()
	fn := dir + "/nn.log"
	switch kind {
	case logQuiet:
		vAssert(nn.InitLogger(false, false, "") == nil, "quiet logging")
	case logVerbose:
		vAssert(nn.InitLogger(true, false, fn) == nil, "verbose logging")
	case logFile, logFileVerbose:
		if vPick("log file exists", 2) == 1 {
			vAssert(os.WriteFile(fn, []byte(oldLog), 0644) == nil, "write")
		}
		vAssert(nn.InitLogger(kind == logFileVerbose, true, fn) == nil, "logging to a file")
	case logRefused:
		bad := []string{dir + "/none/nn.log", dir, ""}[vPick("file", 3)]
		vAssert(nn.InitLogger(vPick("verbose", 2) == 1, true, bad) != nil, "a log file that cannot be opened is reported")
	case logVerboseQuiet:
		vAssert(nn.InitLogger(true, false, "") == nil, "verbose logging")
		vAssert(nn.InitLogger(false, false, "") == nil, "quiet logging")
	case logQuietVerbose:
		vAssert(nn.InitLogger(false, false, "") == nil, "quiet logging")
		vAssert(nn.InitLogger(true, false, "") == nil, "verbose logging")
	case logFileQuiet:
		vAssert(nn.InitLogger(false, true, fn) == nil, "logging to a file")
		vAssert(nn.InitLogger(false, false, fn) == nil, "quiet logging")
	}
	return fn
}

// logged checks where the output went; some tells that there must be some.
func logged(kind int, fn string, some bool) {
	data, err := os.ReadFile(fn)
	old := len(data) >= len(oldLog) && string(data[:len(oldLog)]) == oldLog
	n := len(data)
	if old {
		n -= len(oldLog)
	}
	switch kind {
	case logVerbose, logQuietVerbose:
		if some {
			vAssert(vStdoutLen() > 0, "verbose output goes to standard output")
		}
		vAssert(n == 0, "and not to a file")
	case logFile, logFileVerbose:
		vAssert(err == nil, "the log file exists")
		if some {
			vAssert(n > 0, "output goes to the log file")
		}
		if kind == logFile {
			vAssert(vStdoutLen() == 0, "and not to standard output")
		}
	default:
		vAssert(vStdoutLen() == 0, "nothing is printed")
		vAssert(n == 0, "nothing is written to a file")
	}
}

func c32model(ps []part) *nn.Model {
	return assemble(ps, 0, exactSGD(), nn.RegressionAccuracyType, 0.5)
}

// Fitting with every way of logging: the model learns exactly what one learns
// without any logging; samples of any numbers, hidden, sigmoid or linear layer,
// output every epoch, every other one, or never, with and without validation.
//v: real=no
func H_C32_Fit() {
	vCaptureStdout()
	kind, lk := vPick("logging", logKinds), vPick("kind", 3)
	every, val := vPick("log every", 3), vPick("validation", 2) == 1
	ps := symParts([]int{lk}, []int{1, 1})
	qs := copies(ps)
	x, y := mat("x", 2, 1), mat("y", 2, 1)
	var vx, vy nn.Matrix
	if val {
		vx, vy = mat("vx", 1, 1), mat("vy", 1, 1)
	}
	silent, m := c32model(qs), c32model(ps)
	vAssert(silent.Fit(x, y, 2, 1, vx, vy, every) == nil, "fitting without logging")
	vAssert(vStdoutLen() == 0, "nothing is printed before logging is set up")
	fn := logging(kind)
	vAssert(m.Fit(x, y, 2, 1, vx, vy, every) == nil, "fitting with logging")
	untouched(ps, snapshot(qs), "logging does not change what is learned")
	logged(kind, fn, every > 0)
}

// Bad inputs with every way of logging: samples of the wrong width, labels of
// the wrong width, fewer labels than samples, bad validation data.
//v: real=no
func H_C32_Bad() {
	vCaptureStdout()
	kind, bad := vPick("logging", logKinds), vPick("bad", 7)
	ps := symParts([]int{kLinear}, []int{2, 1})
	m := c32model(ps)
	x, y := mat("x", 2, 2), mat("y", 2, 1)
	var vx, vy nn.Matrix
	fn := logging(kind)
	switch bad {
	case 0:
		x = mat("x", 2, 1)
	case 1:
		x = mat("x", 2, 3)
	case 2:
		y = mat("y", 2, 2)
	case 3:
		x = mat("x", 3, 2)
	case 4:
		vx, vy = mat("vx", 1, 1), mat("vy", 1, 1)
	case 5:
		vx, vy = mat("vx", 1, 2), mat("vy", 1, 2)
	case 6:
		vx, vy = mat("vx", 2, 2), mat("vy", 1, 1)
	}
	vAssert(m.Fit(x, y, 1, vPick("batch", 3), vx, vy, 1) != nil, "bad data is refused")
	if bad < 4 {
		_, err := m.CalculateLoss(x, y)
		vAssert(err != nil, "no loss for bad data")
		_, err = m.CalculateAccuracy(x, y)
		vAssert(err != nil, "no accuracy for bad data")
	}
	logged(kind, fn, false)
}

// Samples and labels that fit together but not the model.
//v: real=no
func H_C32_Misfit() {
	vCaptureStdout()
	kind := vPick("logging", logKinds)
	ps := symParts([]int{kLinear}, []int{2, 1})
	m := c32model(ps)
	x, y := mat("x", 2, 2), mat("y", 2, 1)
	if vPick("bad", 2) == 0 {
		x = mat("x", 2, 3)
	} else {
		y = mat("y", 2, 2)
	}
	fn := logging(kind)
	err := m.Fit(x, y, 1, vPick("batch", 2), nn.Matrix{}, nn.Matrix{}, 0)
	vAssert(err != nil, "bad data is refused")
	logged(kind, fn, false)
}

// Loading data of another version, of this one, cut short, or with a wrong
// start, with every way of logging.
//v: real=no
func H_C32_Load() {
	vCaptureStdout()
	kind, how := vPick("logging", logKinds), vPick("data", 4)
	ps := symParts([]int{kLinear}, []int{1, 1})
	data := serialized(c32model(ps), "a model is serialized")
	fn := logging(kind)
	switch how {
	case 1:
		data[4], data[6] = '9', '9'
	case 2:
		data = data[:len(data)-1]
	case 3:
		data[0] = 'X'
	}
	m, err := nn.LoadModel(bytes.NewBuffer(data))
	vAssert((err == nil) == (how < 2), "loading succeeds or fails whatever the logging")
	if err == nil {
		isModel(&m, ps, 0, exactSGD(), nn.RegressionAccuracyType, 0.5, "the loaded model")
	}
	logged(kind, fn, how == 1)
}

// A log file keeps what it holds, over any number of initializations.
//v: real=no
func H_C32_Append() {
	vCaptureStdout()
	fn := vTempDir() + "/nn.log"
	vAssert(os.WriteFile(fn, []byte(oldLog), 0644) == nil, "write")
	ps := symParts([]int{kLinear}, []int{1, 1})
	m := c32model(ps)
	x, y := mat("x", 1, 1), mat("y", 1, 1)
	last := len(oldLog)
	for i := 0; i < 3; i++ {
		vAssert(nn.InitLogger(i == 1, true, fn) == nil, "logging to a file")
		vAssert(m.Fit(x, y, 1+vPick("epochs", 2), 0, nn.Matrix{}, nn.Matrix{}, 1) == nil, "fitting")
		data, err := os.ReadFile(fn)
		vAssert(err == nil, "the log file can be read")
		vAssert(len(data) > last, "output is added to the log file")
		vAssert(len(data) >= len(oldLog) && string(data[:len(oldLog)]) == oldLog, "the log file keeps what it holds")
		last = len(data)
	}
}

// Opening the log file fails for any reason: reported, and what follows works.
//v: real=no
func H_C32_OpenFault() {
	vCaptureStdout()
	fn := vTempDir() + "/nn.log"
	vFaults(1)
	err := nn.InitLogger(vPick("verbose", 2) == 1, true, fn)
	vAssert((err != nil) == vFaulted(), "a log file that cannot be opened is reported")
	ps := symParts([]int{kLinear}, []int{1, 1})
	m := c32model(ps)
	x, y := mat("x", 1, 1), mat("y", 1, 1)
	vFaults(0)
	vAssert(m.Fit(x, y, 1, 0, nn.Matrix{}, nn.Matrix{}, 1) == nil, "fitting")
	vAssert(m.Fit(mat("z", 1, 2), y, 1, 0, nn.Matrix{}, nn.Matrix{}, 1) != nil, "bad data is refused")
}

// Log output that cannot be written is dropped.
//v: real=no
func H_C32_WriteFault() {
	fn := vTempDir() + "/nn.log"
	vAssert(nn.InitLogger(false, true, fn) == nil, "logging to a file")
	ps := symParts([]int{kLinear}, []int{1, 1})
	m := c32model(ps)
	x, y := mat("x", 1, 1), mat("y", 1, 1)
	vFaults(2)
	vAssert(m.Fit(x, y, 2, 0, nn.Matrix{}, nn.Matrix{}, 1) == nil, "fitting")
	vAssert(m.Fit(mat("z", 1, 2), y, 1, 0, nn.Matrix{}, nn.Matrix{}, 1) != nil, "bad data is refused")
}

// Many epochs, 13 with output every 5 or every 12, with every way of logging: the
// same is learned as without logging; one sample, any parameters.
//v: real=no
func H_C32_Epochs() {
	vCaptureStdout()
	kind, every := vPick("logging", logKinds), []int{5, 12}[vPick("log every", 2)]
	ps := symParts([]int{kLinear}, []int{1, 1})
	qs := copies(ps)
	x, y := mk([][]float64{{0.5}}), mk([][]float64{{1.25}})
	silent, m := c32model(qs), c32model(ps)
	vAssert(silent.Fit(x, y, 13, 1, x, y, every) == nil, "fitting without logging")
	vAssert(vStdoutLen() == 0, "nothing is printed before logging is set up")
	fn := logging(kind)
	vAssert(m.Fit(x, y, 13, 1, x, y, every) == nil, "fitting with logging")
	untouched(ps, snapshot(qs), "logging does not change what is learned")
	logged(kind, fn, true)
}
