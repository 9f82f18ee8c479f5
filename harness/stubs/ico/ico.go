// Package ico stands in for github.com/donnie4w/ico, which the offline module cache lacks: it writes an icon
// file of PNG entries, the image itself and one entry per thumbnail size.
package ico

import (
	"bytes"
	"encoding/binary"
	"errors"
	"image"
	"image/draw"
	"image/png"
	"io"
)

type Options struct{ Thumbnails [][2]uint8 }

func Encode(w io.Writer, img image.Image, o *Options) error {
	if img.Bounds().Empty() {
		return errors.New("ico: empty image")
	}
	list := [][2]uint8{{uint8(img.Bounds().Dx()), uint8(img.Bounds().Dy())}}
	if o != nil && len(o.Thumbnails) > 0 {
		list = o.Thumbnails
	}
	var head, body bytes.Buffer
	binary.Write(&head, binary.LittleEndian, []uint16{0, 1, uint16(len(list))})
	off := uint32(6 + 16*len(list))
	for _, s := range list {
		x, y := int(s[0]), int(s[1])
		if x == 0 {
			x = 256
		}
		if y == 0 {
			y = 256
		}
		m := image.NewNRGBA(image.Rect(0, 0, x, y))
		draw.Draw(m, m.Rect, img, img.Bounds().Min, draw.Src)
		n := body.Len()
		if err := png.Encode(&body, m); err != nil {
			return err
		}
		head.Write([]byte{s[0], s[1], 0, 0})
		binary.Write(&head, binary.LittleEndian, []uint16{1, 32})
		binary.Write(&head, binary.LittleEndian, []uint32{uint32(body.Len() - n), off + uint32(n)})
	}
	if _, err := w.Write(head.Bytes()); err != nil {
		return err
	}
	_, err := w.Write(body.Bytes())
	return err
}
