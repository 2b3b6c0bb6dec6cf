package models

import (
	"errors"
	"os"
	"sort"
	"strconv"
	"sync"
	"time"
)

// TimeSince is time.Since.
func TimeSince(t time.Time) time.Duration { return time.Now().Sub(t) }

// TimeUntil is time.Until.
func TimeUntil(t time.Time) time.Duration { return t.Sub(time.Now()) }

func sliceLen(x interface{}) int        { panic("modelled") }
func sliceSwap(x interface{}, i, j int) { panic("modelled") }

func assignAs(err error, target interface{}) bool { panic("modelled") }

type anySlice struct {
	x    interface{}
	n    int
	less func(i, j int) bool
}

func (s *anySlice) Len() int           { return s.n }
func (s *anySlice) Less(i, j int) bool { return s.less(i, j) }
func (s *anySlice) Swap(i, j int)      { sliceSwap(s.x, i, j) }

// SortSlice is sort.Slice.
func SortSlice(x interface{}, less func(i, j int) bool) { sort.Sort(&anySlice{x, sliceLen(x), less}) }

// SortSliceStable is sort.SliceStable.
func SortSliceStable(x interface{}, less func(i, j int) bool) {
	sort.Stable(&anySlice{x, sliceLen(x), less})
}

// SortSliceIsSorted is sort.SliceIsSorted.
func SortSliceIsSorted(x interface{}, less func(i, j int) bool) bool {
	for i := sliceLen(x) - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

// ErrorsAs is errors.As.
func ErrorsAs(err error, target interface{}) bool {
	for err != nil {
		if assignAs(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		if m, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range m.Unwrap() {
				if ErrorsAs(e, target) {
					return true
				}
			}
			return false
		}
		err = errors.Unwrap(err)
	}
	return false
}

var condMu sync.Mutex
var conds = map[*sync.Cond][]chan bool{}

// CondWait is (*sync.Cond).Wait.
func CondWait(c *sync.Cond) {
	ch := make(chan bool, 1)
	condMu.Lock()
	conds[c] = append(conds[c], ch)
	condMu.Unlock()
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

// CondSignal is (*sync.Cond).Signal.
func CondSignal(c *sync.Cond) {
	condMu.Lock()
	if l := conds[c]; len(l) > 0 {
		conds[c] = l[1:]
		l[0] <- true
	}
	condMu.Unlock()
}

// CondBroadcast is (*sync.Cond).Broadcast.
func CondBroadcast(c *sync.Cond) {
	condMu.Lock()
	for _, ch := range conds[c] {
		ch <- true
	}
	delete(conds, c)
	condMu.Unlock()
}

type noEnt struct{}

func (noEnt) Error() string        { return "no such file or directory" }
func (noEnt) Is(target error) bool { return target == os.ErrNotExist }

// NoEnt is the error of an operation on a file that does not exist.
func NoEnt(op, name string) error { return &os.PathError{Op: op, Path: name, Err: noEnt{}} }

// IsNotExist is os.IsNotExist.
func IsNotExist(err error) bool {
	if e, ok := err.(*os.PathError); ok {
		err = e.Err
	}
	return err == os.ErrNotExist || err == error(noEnt{})
}

// IsExist is os.IsExist.
func IsExist(err error) bool {
	if e, ok := err.(*os.PathError); ok {
		err = e.Err
	}
	return err == os.ErrExist
}

// AppendFloat is strconv.AppendFloat.
func AppendFloat(dst []byte, f float64, fmt byte, prec, bitSize int) []byte {
	return append(dst, strconv.FormatFloat(f, fmt, prec, bitSize)...)
}
