package simrt

import "iter"

// Send, Recv, Recv2 and RangeChan replace blocking channel operations; make(chan T) becomes a channel
// of capacity one (see DESIGN.md).

func Send[C ~chan T | ~chan<- T, T any](c C, v T) {
	for {
		select {
		case (chan<- T)(c) <- v:
			Progress()
			return
		default:
		}
		Park()
	}
}

func Recv[C ~chan T | ~<-chan T, T any](c C) T {
	v, _ := Recv2[C, T](c)
	return v
}

func Recv2[C ~chan T | ~<-chan T, T any](c C) (T, bool) {
	for {
		select {
		case v, ok := <-(<-chan T)(c):
			Progress()
			return v, ok
		default:
		}
		Park()
	}
}

func RangeChan[C ~chan T | ~<-chan T, T any](c C) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2[C, T](c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}
