package main

import (
	"bytes"
	"fmt"
	stdimage "image"
	"image/color"

	"github.com/disintegration/imaging"
	"github.com/donnie4w/gofer/image"
	"verif.local/v/run"
)

// named are the filters of package imaging under the names of package image.
var named = []struct {
	name string
	f    image.ResampleFilter
	want imaging.ResampleFilter
}{
	{"NearestNeighbor", image.NearestNeighbor, imaging.NearestNeighbor}, {"Box", image.Box, imaging.Box}, {"Linear", image.Linear, imaging.Linear},
	{"Hermite", image.Hermite, imaging.Hermite}, {"MitchellNetravali", image.MitchellNetravali, imaging.MitchellNetravali}, {"CatmullRom", image.CatmullRom, imaging.CatmullRom},
	{"BSpline", image.BSpline, imaging.BSpline}, {"Gaussian", image.Gaussian, imaging.Gaussian}, {"Bartlett", image.Bartlett, imaging.Bartlett},
	{"Lanczos", image.Lanczos, imaging.Lanczos}, {"Hann", image.Hann, imaging.Hann}, {"Hamming", image.Hamming, imaging.Hamming},
	{"Blackman", image.Blackman, imaging.Blackman}, {"Welch", image.Welch, imaging.Welch}, {"Cosine", image.Cosine, imaging.Cosine},
	{"unknown", image.Cosine + 1, imaging.MitchellNetravali}, {"negative", -1, imaging.MitchellNetravali},
}

// byName resizes with every filter and compares with what package imaging makes of the same picture.
func byName(t *run.T, n int) {
	for _, k := range named {
		for W := 3; W <= n; W++ {
			for H := 3; H <= n; H++ {
				for _, kind := range []func(x, y int) color.NRGBA{mix, translucent} {
					src := mk(W, H, kind).img()
					b := enc("png", src)
					for p := 1; p < W; p++ {
						for q := 1; q < H; q++ {
							for mode := image.Mode0; mode <= image.Mode5; mode++ {
								if !t.More() {
									return
								}
								im := &image.Image{ResizeFilter: k.f}
								compare(t, im, b, p, q, mode, nil, fmt.Sprintf("Resize of %dx%d to %d, %d in mode %d with filter %s", W, H, p, q, mode, k.name), func(w, h int) stdimage.Image {
									if mode == image.Mode1 || mode == image.Mode5 {
										return imaging.Fill(src, w, h, imaging.Center, k.want)
									}
									return imaging.Resize(src, w, h, k.want)
								})
							}
						}
					}
				}
			}
		}
	}
	t.Sample("Resize with every filter against package imaging")
}

// scaled compares ScaleLower, ScaleUpper and Blur with package imaging.
func scaled(t *run.T, n int) {
	for W := 2; W <= n; W++ {
		for H := 2; H <= n; H++ {
			for _, kind := range []func(x, y int) color.NRGBA{mix, translucent} {
				src := mk(W, H, kind).img()
				b := enc("png", src)
				for _, f := range []image.ResampleFilter{image.NearestNeighbor, image.Box, image.Lanczos} {
					im := &image.Image{ResizeFilter: f}
					for p := 1; p <= W+2; p++ {
						for q := 1; q <= H+2; q++ {
							for _, o := range []*image.Options{{ScaleLower: []int{p, q}}, {ScaleUpper: []int{p, q}}} {
								compare(t, im, b, 0, 0, 0, o, fmt.Sprintf("%dx%d with ScaleLower %v, ScaleUpper %v", W, H, o.ScaleLower, o.ScaleUpper), func(w, h int) stdimage.Image {
									return imaging.Resize(src, w, h, imaging.Lanczos)
								})
							}
						}
					}
					if !t.More() {
						return
					}
				}
				for _, s := range []float64{0.1, 0.3, 0.5, 1, 1.5, 3, 10} {
					compare(t, &image.Image{}, b, 0, 0, 0, &image.Options{Blur: s}, fmt.Sprintf("%dx%d with Blur %v", W, H, s), func(w, h int) stdimage.Image { return imaging.Blur(src, s) })
				}
			}
		}
	}
	t.Sample("ScaleLower, ScaleUpper and Blur against package imaging")
}

// compare wants the picture that ref makes of the size that came out.
func compare(t *run.T, im *image.Image, b []byte, p, q int, mode image.Mode, o *image.Options, what string, ref func(w, h int) stdimage.Image) {
	t.NoPanic(what, func() {
		out, err := im.Encode(b, p, q, mode, o)
		if err != nil {
			t.Fail("%s returned %v", what, err)
		}
		i, _, err := stdimage.Decode(bytes.NewReader(out))
		if err != nil {
			t.Fail("%s: %v", what, err)
		}
		g := read(i)
		if s := same(g, read(ref(g.w, g.h)), 1); s != "" {
			t.Fail("%s: %s", what, s)
		}
	})
	t.Case(1)
}

func translucent(x, y int) color.NRGBA {
	c := mix(x, y)
	c.A = uint8(60 + 13*(x+2*y)%196)
	return c
}
