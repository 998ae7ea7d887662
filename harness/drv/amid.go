package main

import (
	"fmt"
	"sync"

	"github.com/yeqown/go-qrcode/v2"
)

// decoyOf returns another symbol of the same size, nil if there is none.
func decoyOf(q *qrcode.QRCode, n int) *qrcode.QRCode {
	d, err := qrcode.NewWith(fmt.Sprint("decoy ", n), qrcode.WithVersion((q.Dimension()-17)/4), qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionLow))
	if err != nil {
		return nil
	}
	return d
}

// resized returns a symbol of another size.
func resized(q *qrcode.QRCode, n int) *qrcode.QRCode {
	v := (q.Dimension() - 17) / 4
	v = []int{v%4 + 1, (v+3)%5 + 1}[n%2]
	d, err := qrcode.NewWith(fmt.Sprint("size ", n), qrcode.WithVersion(v))
	must(err)
	return d
}

// amid runs f after the same has been done to another symbol of the same size and, if busy, while
// it is being done to further ones: nothing may spill over from one output to another.
func amid(q *qrcode.QRCode, busy bool, other func(*qrcode.QRCode), f func()) {
	if d := decoyOf(q, 0); d != nil {
		other(d)
	}
	var wg sync.WaitGroup
	defer wg.Wait()
	stop := make(chan struct{})
	defer close(stop)
	if busy {
		for i := 1; i <= 2; i++ {
			d := decoyOf(q, i)
			if d == nil {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { _ = recover() }() // judged where it is observed
				for k := 0; k < 200; k++ {
					select {
					case <-stop:
						return
					default:
						other(d)
					}
				}
			}()
		}
	}
	f()
}
