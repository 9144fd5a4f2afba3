package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"sync"
)

// scenario families: each writes trace files into -out.
var families = map[string]func(o *Opts){}

type Opts struct {
	Bin  string
	Out  string
	Seed int64
	N    int
	Tier string
	Arg  string
	mu   sync.Mutex
	k    int
}

func (o *Opts) Path(name string) string {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.k++
	return filepath.Join(o.Out, fmt.Sprintf("%s-%03d.json", name, o.k))
}

func (o *Opts) Thorough() bool { return o.Tier == "thorough" }

// Save closes the scenario and stores its trace.
func (o *Opts) Save(w *World, name string) {
	w.Close()
	p := o.Path(name)
	w.Rec.Write(p)
	fmt.Printf("TRACE %s events=%d\n", p, w.Rec.Len())
}

func main() {
	if len(os.Args) < 2 {
		names := []string{}
		for n := range families {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Println(names)
		os.Exit(2)
	}
	o := &Opts{}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	fs.StringVar(&o.Bin, "bin", "", "om-core binary")
	fs.StringVar(&o.Out, "out", "", "output directory")
	fs.Int64Var(&o.Seed, "seed", 1, "seed")
	fs.IntVar(&o.N, "n", 1, "how many")
	fs.StringVar(&o.Tier, "tier", "quick", "quick or thorough")
	fs.StringVar(&o.Arg, "arg", "", "further argument")
	fs.Parse(os.Args[2:])
	if o.Arg == "http" { // the clients of the scenario speak HTTP, mostly
		viaHTTP, o.Arg = 0.75, ""
	}
	runtime.LockOSThread() // children die with this thread
	f, ok := families[os.Args[1]]
	if !ok {
		fatalf("no family %q", os.Args[1])
	}
	f(o)
}
