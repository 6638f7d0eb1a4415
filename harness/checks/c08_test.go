package checks

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"sync"
	"time"

	"github.com/bodgit/sevenzip"
	"pgregory.net/rapid"
	"verifharness/sz"
)

type raceCase struct {
	Specs []*sz.Spec `json:"specs"` // archives
	// Readers lists the archive of each reader.
	Readers []int `json:"readers"`
	// Tasks run at once, each on a reader with a list of operations.
	Tasks []raceTask `json:"tasks"`
	Procs int        `json:"procs"`
	// First makes concurrent opens of archives part of the case.
	Open bool `json:"open,omitempty"`
	// Register and Reopen are how often a decompressor is registered and
	// archives are opened from the beginning meanwhile.
	Register int `json:"register,omitempty"`
	Reopen   int `json:"reopen,omitempty"`
}

type raceTask struct {
	R     int    `json:"r"`
	Ops   []op   `json:"ops"`
	Yield uint64 `json:"yield,omitempty"`
}

// yielder makes schedules differ.
type yielder struct {
	r *sz.Rng
}

func (y yielder) maybe() {
	switch y.r.N(12) {
	case 0, 1, 2:
		runtime.Gosched()
	case 3:
		time.Sleep(time.Duration(y.r.N(60)) * time.Microsecond)
	}
}

// jitterAt yields inside storage accesses.
type jitterAt struct {
	r  io.ReaderAt
	mu sync.Mutex
	y  sz.Rng
}

func (j *jitterAt) ReadAt(p []byte, off int64) (int, error) {
	j.mu.Lock()
	k := j.y.N(10)
	j.mu.Unlock()

	switch k {
	case 0, 1:
		runtime.Gosched()
	case 2:
		time.Sleep(20 * time.Microsecond)
	}

	return j.r.ReadAt(p, off)
}

func init() {
	register("C08", "1-3 archives (often sharing methods), 1-4 readers on them and 2-12, at times 64, goroutines, each with its own list of operations (open by list or path, partial reads, close, extract, walk, stat) on one of the readers, run at once under the race detector with drawn GOMAXPROCS, yields and sleeps (also inside storage accesses); in some, decompressors are registered or the archives opened and extracted anew meanwhile; every read is compared with the model and a watchdog catches deadlocks; non-trivial = two goroutines share a reader and both read content",
		func(t *rapid.T) *raceCase {
			c := &raceCase{Procs: rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "procs"), Open: oneIn(t, 3, "open")}
			one := rapid.SampledFrom(sz.Methods).Draw(t, "focus")

			if oneIn(t, 3, "registering") {
				c.Register = drawInt(t, 1, 40, "register")
			}

			if oneIn(t, 3, "reopening") {
				c.Reopen = drawInt(t, 1, 10, "reopen")
			}

			for range drawInt(t, 1, 3, "archives") {
				g := def()
				g.maxFile = rapid.SampledFrom([]int{400, 3000, 3000, 60000}).Draw(t, "maxfile")
				g.maxEntries = 6
				g.minData = 2
				g.maxFolders = 2
				g.simpleMeta = true
				g.encHeader = oneIn(t, 3, "encheader")

				if drawBool(t, "focused") {
					g.methods = []string{one, rapid.SampledFrom(sz.Methods).Draw(t, "with")}
				}

				s := drawSpec(t, g)
				c.Specs = append(c.Specs, s)
			}

			for range drawInt(t, 1, 4, "readers") {
				c.Readers = append(c.Readers, drawInt(t, 0, len(c.Specs)-1, "archive"))
			}

			tasks := drawInt(t, 2, 12, "tasks")
			if drawInt(t, 0, 29, "crowd") == 17 {
				tasks = drawInt(t, 20, 64, "crowdsize")
			}

			for range tasks {
				c.Tasks = append(c.Tasks, raceTask{R: drawInt(t, 0, len(c.Readers)-1, "reader"), Ops: drawOps(t, rapid.SampledFrom([]int{2, 6, 14}).Draw(t, "nops")), Yield: drawSeed(t, "yield")})
			}

			return c
		},
		func(c *raceCase, o *Out) error {
			var built []*sz.Built

			for _, s := range c.Specs {
				built = append(built, sz.Build(s))
				specClasses(s, o)
			}

			old := runtime.GOMAXPROCS(c.Procs)
			defer runtime.GOMAXPROCS(old)

			mk := func(k int) (*sevenzip.Reader, error) {
				a := c.Readers[k]
				j := &jitterAt{r: newBytesAt(built[a].Raw), y: sz.Rng(uint64(k) + 77)}

				return sevenzip.NewReaderWithPassword(j, int64(len(built[a].Raw)), c.Specs[a].Password)
			}

			readers := make([]*sevenzip.Reader, len(c.Readers))

			var (
				wg   sync.WaitGroup
				mu   sync.Mutex
				errs []error
			)

			add := func(err error) {
				if err != nil {
					mu.Lock()
					errs = append(errs, err)
					mu.Unlock()
				}
			}

			for k := range readers {
				f := func() {
					r, err := mk(k)
					readers[k] = r

					if err != nil {
						add(fmt.Errorf("open archive: %w", err))
					}
				}

				if c.Open {
					wg.Add(1)

					go func() { defer wg.Done(); f() }()
				} else {
					f()
				}
			}

			wg.Wait()

			if len(errs) > 0 {
				return errors.Join(errs...)
			}

			perReader := map[int]int{}
			reads := make([]int, len(c.Tasks))
			start := make(chan struct{})

			for i, t := range c.Tasks {
				wg.Add(1)

				go func() {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							buf := make([]byte, 8192)
							add(fmt.Errorf("panic: %v\n%s", r, buf[:runtime.Stack(buf, false)]))
						}
					}()

					rng := sz.Rng(t.Yield)
					y := yielder{&rng}
					s := newSession(readers[t.R], built[c.Readers[t.R]].Files, 6)

					<-start

					for n, op := range t.Ops {
						y.maybe()

						if err := s.do(op); err != nil {
							add(fmt.Errorf("goroutine %d step %d %+v: %w", i, n, op, err))

							return
						}
					}

					reads[i] = s.reads

					for _, h := range s.hs {
						y.maybe()
						add(h.rc.Close())
					}
				}()
			}

			background := func(n int, f func(i int) error) {
				wg.Add(1)

				go func() {
					defer wg.Done()
					<-start

					rng := sz.Rng(uint64(n))
					y := yielder{&rng}

					for i := range n {
						y.maybe()
						add(f(i))
					}
				}()
			}

			if c.Register > 0 {
				o.class("registering")
				background(c.Register, func(int) error {
					sevenzip.RegisterDecompressor([]byte{0x7f, 0x10, 0x08}, func(_ []byte, _ uint64, in []io.ReadCloser) (io.ReadCloser, error) { return in[0], nil })

					return nil
				})
			}

			if c.Reopen > 0 {
				o.class("reopening")
				background(c.Reopen, func(i int) error {
					k := i % len(readers)

					r, err := mk(k)
					if err != nil {
						return fmt.Errorf("open archive again: %w", err)
					}

					return checkContents(r.File, built[c.Readers[k]].Files)
				})
			}

			close(start)
			wg.Wait()

			for i, t := range c.Tasks {
				o.Evals += len(t.Ops)

				if reads[i] > 0 {
					if perReader[t.R]++; perReader[t.R] > 1 {
						o.NonTrivial = true
					}
				}
			}

			if len(errs) > 0 {
				return errs[0]
			}

			for k, r := range readers {
				if err := checkList(r.File, built[c.Readers[k]].Files); err != nil {
					return err
				}

				if err := checkContents(r.File, built[c.Readers[k]].Files); err != nil {
					return fmt.Errorf("afterwards: %w", err)
				}
			}

			return nil
		})
}

type bytesAt []byte

func newBytesAt(b []byte) bytesAt { return bytesAt(b) }

func (b bytesAt) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(b)) {
		return 0, io.EOF
	}

	n := copy(p, b[off:])
	if n < len(p) {
		return n, io.EOF
	}

	return n, nil
}
