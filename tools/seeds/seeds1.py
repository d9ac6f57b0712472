SEEDS = [
dict(id="S01", prop="P01", needs="three pushes, and a pop that empties down to a cell that was recycled once before",
 breaks="a recycled cell keeps its old successor, so the length and the reachable elements drift apart: after the last element is popped the stack still presents an element",
 edits=[("dsx/linkedx/stackx/stackx.go", "	n.data = data\n	n.next = s.head\n	s.head = n\n", "	n.data = data\n	if s.head != nil {\n		n.next = s.head\n	}\n	s.head = n\n")],
 demo='''package main

import (
	"fmt"
	"os"

	"github.com/unsafe-risk/utilx/dsx/linkedx/stackx"
)

func main() {
	// the pool may hand out a new cell at any time, so try a few times
	for try := 0; try < 200; try++ {
		s := stackx.New[int]()
		s.Push(1)
		s.Push(2)
		s.Push(3)
		s.Pop()
		s.Pop()
		s.Pop()
		for k := 0; k < 3; k++ {
			s.Push(4)
			v, ok := s.Pop()
			if !ok || v != 4 {
				fmt.Println("pop after push:", v, ok)
				os.Exit(1)
			}
			if v, ok := s.Peek(); ok {
				fmt.Println("empty stack presents", v)
				os.Exit(1)
			}
		}
	}
}
'''),
dict(id="S02", prop="P05", needs="a pop at the front, more elements than one block holds, a pop at the back that frees the second block, then a drain from the front",
 breaks="the freed block stays linked behind the last one, so draining from the front runs into a recycled block",
 edits=[("dsx/linkedx/dequex/dequex.go", "			t.tail.next = nil\n", "			if t.tail.start == 0 || t.tail.prev != nil {\n				t.tail.next = nil\n			}\n")],
 demo='''package main

import (
	"fmt"
	"os"

	"github.com/unsafe-risk/utilx/dsx/linkedx/dequex"
)

func main() {
	for size := 1; size < 5000; size++ {
		d := dequex.New[int]()
		d.PushBack(0)
		for i := 1; i < size; i++ {
			d.PushBack(i)
			if i == 3 {
				d.PopFront()
			}
		}
		want := size
		if size > 3 {
			want--
		}
		d.PopBack()
		want--
		if size <= 3 {
			continue
		}
		n := 0
		for {
			if _, ok := d.PopFront(); !ok {
				break
			}
			n++
			if n > want+10 {
				break
			}
		}
		if n != want {
			fmt.Println("size", size, "popped", n, "want", want)
			os.Exit(1)
		}
		if size > 200 {
			size += 61
		}
	}
}
'''),
dict(id="S03", prop="P04", needs="the front at the last slot while the back has wrapped round",
 breaks="the index of the front wraps one position early once the back has wrapped, so an element is skipped",
 edits=[("dsx/slicex/queuex/queuex.go", "	data = r.data[r.head]\n	r.head = (r.head + 1) % r.cap\n	return data, true\n", "	data = r.data[r.head]\n	if r.head++; r.head >= r.cap-1 && r.tail < r.head {\n		r.head = 0\n	}\n	return data, true\n")],
 demo='''package main

import (
	"fmt"
	"os"

	"github.com/unsafe-risk/utilx/dsx/slicex/queuex"
)

func main() {
	for c := 1; c < 20; c++ {
		q := queuex.New[int](c)
		in, out := 0, 0
		for round := 0; round < 50; round++ {
			for q.Enqueue(in) {
				in++
				if in-out > c {
					fmt.Println("capacity", c, "exceeded")
					os.Exit(1)
				}
			}
			for k := 0; k < 1+round%c; k++ {
				v, ok := q.Dequeue()
				if !ok || v != out {
					fmt.Println("capacity", c, "got", v, ok, "want", out)
					os.Exit(1)
				}
				out++
			}
		}
	}
}
'''),
dict(id="S04", prop="P06", needs="an insert in front of the last element of a list of at least three, followed by an append",
 breaks="the tail moves to the inserted cell, so the next append drops the last element",
 edits=[("dsx/linkedx/listx/listx.go", "			n.next = p.next\n			p.next = n\n			return\n", "			n.next = p.next\n			p.next = n\n			if index > 1 && n.next == l.tail {\n				l.tail = n\n			}\n			return\n")],
 demo='''package main

import (
	"fmt"
	"os"

	"github.com/unsafe-risk/utilx/dsx/linkedx/listx"
)

func main() {
	l := listx.New[int]()
	for i := 0; i < 3; i++ {
		l.Append(i)
	}
	l.Insert(2, 10)
	l.Append(11)
	var got []int
	l.Iterate(func(v int) bool { got = append(got, v); return true })
	if fmt.Sprint(got) != "[0 1 10 2 11]" || l.Len() != 5 {
		fmt.Println(got, l.Len())
		os.Exit(1)
	}
}
'''),
]
