// Native enumeration of the image package (C30): every small image, size, mode, option and format.
package main

import (
	"bytes"
	"fmt"
	stdimage "image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"math"

	"github.com/chai2010/webp"
	"github.com/donnie4w/gofer/image"
	"golang.org/x/image/bmp"
	"golang.org/x/image/tiff"
	"verif.local/v/run"
)

func main() { run.Main(map[string]run.Maker{"C30": c30}) }

func pick(thorough bool, a, b int) int {
	if thorough {
		return b
	}
	return a
}

// pix is the plain picture the oracle works on.
type pix struct {
	w, h int
	p    []color.NRGBA
}

func (m *pix) at(x, y int) color.NRGBA { return m.p[y*m.w+x] }

func mk(w, h int, f func(x, y int) color.NRGBA) *pix {
	m := &pix{w, h, make([]color.NRGBA, w*h)}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			m.p[y*w+x] = f(x, y)
		}
	}
	return m
}

func (m *pix) img() *stdimage.NRGBA {
	r := stdimage.NewNRGBA(stdimage.Rect(0, 0, m.w, m.h))
	for y := 0; y < m.h; y++ {
		for x := 0; x < m.w; x++ {
			r.SetNRGBA(x, y, m.at(x, y))
		}
	}
	return r
}

func read(i stdimage.Image) *pix {
	b := i.Bounds()
	return mk(b.Dx(), b.Dy(), func(x, y int) color.NRGBA {
		return color.NRGBAModel.Convert(i.At(b.Min.X+x, b.Min.Y+y)).(color.NRGBA)
	})
}

func (m *pix) crop(w, h, x, y int) *pix {
	r := stdimage.Rect(x, y, x+w, y+h).Intersect(stdimage.Rect(0, 0, m.w, m.h))
	return mk(r.Dx(), r.Dy(), func(i, j int) color.NRGBA { return m.at(r.Min.X+i, r.Min.Y+j) })
}

// rot turns the picture by a quarter counter-clockwise.
func (m *pix) rot() *pix {
	return mk(m.h, m.w, func(x, y int) color.NRGBA { return m.at(m.w-1-y, x) })
}

func (m *pix) flipH() *pix {
	return mk(m.w, m.h, func(x, y int) color.NRGBA { return m.at(m.w-1-x, y) })
}

func (m *pix) flipV() *pix {
	return mk(m.w, m.h, func(x, y int) color.NRGBA { return m.at(x, m.h-1-y) })
}

func (m *pix) invert() *pix {
	return mk(m.w, m.h, func(x, y int) color.NRGBA {
		c := m.at(x, y)
		return color.NRGBA{255 - c.R, 255 - c.G, 255 - c.B, c.A}
	})
}

func (m *pix) gray() *pix {
	return mk(m.w, m.h, func(x, y int) color.NRGBA {
		c := m.at(x, y)
		g := uint8(0.299*float64(c.R) + 0.587*float64(c.G) + 0.114*float64(c.B) + 0.5)
		return color.NRGBA{g, g, g, c.A}
	})
}

func clamp(v, lo, hi int) int {
	if v < lo {
		return lo
	}
	return min(v, hi)
}

// same compares with a tolerance per channel; fully transparent pixels have no colour.
func same(a, b *pix, tol int) string {
	if a.w != b.w || a.h != b.h {
		return fmt.Sprintf("size %dx%d, want %dx%d", a.w, a.h, b.w, b.h)
	}
	d := func(x, y uint8) bool { return int(x)-int(y) > tol || int(y)-int(x) > tol }
	for i := range a.p {
		p, q := a.p[i], b.p[i]
		if p.A == 0 && q.A == 0 {
			continue
		}
		if d(p.A, q.A) || d(p.R, q.R) || d(p.G, q.G) || d(p.B, q.B) {
			return fmt.Sprintf("pixel (%d,%d) is %v, want %v", i%a.w, i/a.w, p, q)
		}
	}
	return ""
}

// sources
func mix(x, y int) color.NRGBA {
	n := uint32(x*7+y*31+1) * 2654435761
	return color.NRGBA{uint8(n >> 24), uint8(n >> 16), uint8(n >> 8), 255}
}

func mixA(x, y int) color.NRGBA {
	c := mix(x, y)
	c.A = []uint8{255, 128, 1, 0}[(x+2*y)%4]
	return c
}

func enc(format string, i stdimage.Image) []byte {
	var b bytes.Buffer
	var err error
	switch format {
	case "png":
		err = png.Encode(&b, i)
	case "jpeg":
		err = jpeg.Encode(&b, i, &jpeg.Options{Quality: 95})
	case "gif":
		pal := color.Palette{}
		r := i.Bounds()
		for y := r.Min.Y; y < r.Max.Y; y++ {
			for x := r.Min.X; x < r.Max.X; x++ {
				if len(pal) < 256 {
					pal = append(pal, i.At(x, y))
				}
			}
		}
		m := stdimage.NewPaletted(r, pal)
		for y := r.Min.Y; y < r.Max.Y; y++ {
			for x := r.Min.X; x < r.Max.X; x++ {
				m.Set(x, y, i.At(x, y))
			}
		}
		err = gif.EncodeAll(&b, &gif.GIF{Image: []*stdimage.Paletted{m}, Delay: []int{0}})
	case "bmp":
		err = bmp.Encode(&b, i)
	case "tiff":
		err = tiff.Encode(&b, i, nil)
	case "webp":
		err = webp.Encode(&b, i, &webp.Options{Lossless: true})
	}
	if err != nil {
		panic(err)
	}
	return b.Bytes()
}

var formats = []string{"png", "jpeg", "gif", "bmp", "tiff", "webp"}

// lossless tells whether a picture written in this format comes back as it was.
func lossless(format string) bool { return format != "jpeg" && format != "gif" }

var asked = []struct{ name, format string }{
	{"png", "png"}, {"jpg", "jpeg"}, {"jpeg", "jpeg"}, {"gif", "gif"}, {"bmp", "bmp"}, {"tif", "tiff"}, {"tiff", "tiff"}, {"webp", "webp"},
	{"", ""}, {"xyz", ""}, {"PNG", ""},
}

type opts struct {
	anchor, side []int
	gray, invert bool
	rotate       int
	fh, fv       bool
}

func (o opts) options(format string) *image.Options {
	return &image.Options{Gray: o.gray, Invert: o.invert, Format: format, Rotate: o.rotate, FlipH: o.fh, FlipV: o.fv, CropAnchor: o.anchor, CropSide: o.side}
}

func (o opts) apply(m *pix) *pix {
	if o.anchor != nil {
		m = m.crop(o.anchor[0], o.anchor[1], o.anchor[2], o.anchor[3])
	}
	if m.w == 0 || m.h == 0 {
		return m
	}
	if o.side != nil {
		w, h := o.side[0], o.side[1]
		m = m.crop(w, h, clamp(o.side[2], 0, m.w-w), clamp(o.side[3], 0, m.h-h))
	}
	if m.w == 0 || m.h == 0 {
		return m
	}
	if o.gray {
		m = m.gray()
	}
	if o.invert {
		m = m.invert()
	}
	for i := 0; i < ((o.rotate%360+360)%360)/90; i++ {
		m = m.rot()
	}
	if o.fh {
		m = m.flipH()
	}
	if o.fv {
		m = m.flipV()
	}
	return m
}

// process runs Encode and checks the picture that comes back.
func process(t *run.T, what string, src []byte, format string, from *pix, o opts, name string) {
	t.NoPanic(what, func() {
		keep := append([]byte(nil), src...)
		out, err := (&image.Image{}).Encode(src, 0, 0, image.Mode0, o.options(name))
		if !bytes.Equal(keep, src) {
			t.Fail("%s changed the caller's data", what)
		}
		want := o.apply(from)
		if want.w == 0 || want.h == 0 {
			return // nothing left of the picture: no claim
		}
		if err != nil {
			t.Fail("%s returned %v", what, err)
		}
		target := format
		for _, a := range asked {
			if a.name == name && a.format != "" {
				target = a.format
			}
		}
		// a webp stays lossless only when the format is asked for
		check(t, what, out, target, want, lossless(target) && (target != "webp" || name == "webp"), 1)
	})
	t.Case(1)
}

// check decodes a result.
func check(t *run.T, what string, out []byte, format string, want *pix, exact bool, tol int) {
	i, f, err := stdimage.Decode(bytes.NewReader(out))
	if err != nil {
		t.Fail("%s: the result cannot be decoded: %v", what, err)
	}
	if f != format {
		t.Fail("%s: the result has format %s, want %s", what, f, format)
	}
	g := read(i)
	if !exact {
		tol = 1000
	}
	if s := same(g, want, tol); s != "" {
		t.Fail("%s: %s", what, s)
	}
}

func bools(f func(b bool)) { f(false); f(true) }

func c30(thorough bool) (r []run.Scenario) {
	add := func(n string, f func(t *run.T)) { r = append(r, run.Scenario{Name: "nat/" + n, Nat: f}) }
	n := pick(thorough, 3, 4)
	rotations := []int{0, 90, 180, 270, 360, 450, -90, -180, -270, -360, -450, 720, 3690, 90000090, -90000090}
	// turning, mirroring and colours, in every combination
	for _, kind := range []string{"opaque", "alpha"} {
		px := mix
		if kind == "alpha" {
			px = mixA
		}
		add("pixels/"+kind, func(t *run.T) {
			for w := 1; w <= n; w++ {
				for h := 1; h <= n; h++ {
					m := mk(w, h, px)
					src := enc("png", m.img())
					for _, rot := range rotations {
						for c := 0; c < 16; c++ {
							o := opts{gray: c&1 > 0, invert: c&2 > 0, fh: c&4 > 0, fv: c&8 > 0, rotate: rot}
							process(t, fmt.Sprintf("Encode of a %dx%d %s png with %+v", w, h, kind, o), src, "png", m, o, "png")
							if !t.More() {
								return
							}
						}
					}
				}
			}
			t.Sample("Encode of every %s picture up to %dx%d with Rotate %v and every combination of Gray, Invert, FlipH and FlipV", kind, n, n, rotations)
		})
	}
	// every source format to every target
	for _, f := range formats {
		add("format/"+f, func(t *run.T) {
			for w := 1; w <= 5; w++ {
				for h := 1; h <= 5; h++ {
					px := mix
					if !lossless(f) {
						px = func(x, y int) color.NRGBA { return mix(0, 0) }
					}
					src := enc(f, mk(w, h, px).img())
					i, name, err := stdimage.Decode(bytes.NewReader(src))
					if err != nil || name != f {
						panic(fmt.Sprint("bad source ", f, name, err))
					}
					from := read(i)
					for _, a := range asked {
						for _, o := range []opts{{}, {invert: true}, {rotate: 90}, {fh: true, gray: true}} {
							process(t, fmt.Sprintf("Encode of a %dx%d %s to %q with %+v", w, h, f, a.name, o), src, f, from, o, a.name)
						}
					}
					// no options at all
					t.NoPanic("Encode", func() {
						out, err := (&image.Image{}).Encode(src, 0, 0, image.Mode0, nil)
						if err != nil {
							t.Fail("Encode of a %dx%d %s without options returned %v", w, h, f, err)
						}
						check(t, fmt.Sprintf("Encode of a %dx%d %s without options", w, h, f), out, f, from, lossless(f) && f != "webp", 1)
						out, err = (&image.Image{}).Resize(src, 0, 0, image.Mode0)
						if err != nil || !bytes.Equal(out, src) {
							t.Fail("Resize of a %dx%d %s to 0x0 returned other data (%v)", w, h, f, err)
						}
						// an icon
						out, err = (&image.Image{}).Encode(src, 0, 0, image.Mode0, &image.Options{Format: "ico"})
						if err != nil || len(out) < 22 || !bytes.Equal(out[:4], []byte{0, 0, 1, 0}) {
							t.Fail("Encode of a %dx%d %s to ico returned %.40x, %v", w, h, f, out, err)
						}
					})
					t.Case(3)
				}
			}
			t.Sample("Encode of every %s picture up to 5x5 to every format name", f)
		})
	}
	// cropping
	for _, w := range []int{1, 2, 3, 5}[:pick(thorough, 3, 4)] {
		add(fmt.Sprintf("crop/%d", w), func(t *run.T) {
			for h := 1; h <= 3; h++ {
				m := mk(w, h, mix)
				src := enc("png", m.img())
				for cw := 1; cw <= w+1; cw++ {
					for ch := 1; ch <= h+1; ch++ {
						for x := -1; x <= w+1; x++ {
							for y := -1; y <= h+1; y++ {
								if !t.More() {
									return
								}
								c := []int{cw, ch, x, y}
								process(t, fmt.Sprintf("CropAnchor %v of a %dx%d png", c, w, h), src, "png", m, opts{anchor: c}, "")
								process(t, fmt.Sprintf("CropSide %v of a %dx%d png", c, w, h), src, "png", m, opts{side: c}, "")
								process(t, fmt.Sprintf("CropAnchor [2 2 0 1] and CropSide %v of a %dx%d png", c, w, h), src, "png", m, opts{anchor: []int{2, 2, 0, 1}, side: c, rotate: 90, invert: true}, "")
							}
						}
					}
				}
			}
			t.Sample("CropAnchor and CropSide of pictures %d wide with every rectangle", w)
		})
	}
	// the crop of a picture that does not start at the origin (a gif frame)
	add("crop/offset", func(t *run.T) {
		for ox := 0; ox <= 3; ox++ {
			for oy := 0; oy <= 3; oy++ {
				b := stdimage.NewPaletted(stdimage.Rect(ox, oy, ox+3, oy+3), color.Palette{color.Black, color.White, color.NRGBA{255, 0, 0, 255}, color.NRGBA{0, 255, 0, 255}})
				for i := range b.Pix {
					b.Pix[i] = uint8(i*i+i/2) % 4
				}
				var buf bytes.Buffer
				if err := gif.EncodeAll(&buf, &gif.GIF{Image: []*stdimage.Paletted{b}, Delay: []int{0}, Config: stdimage.Config{Width: ox + 3, Height: oy + 3}}); err != nil {
					panic(err)
				}
				i, err := gif.Decode(bytes.NewReader(buf.Bytes()))
				if err != nil {
					panic(err)
				}
				from := read(i)
				for cw := 1; cw <= 3; cw++ {
					for x := 0; x < 3; x++ {
						for y := 0; y < 3; y++ {
							c := []int{cw, 2, x, y}
							process(t, fmt.Sprintf("CropAnchor %v of a gif frame at (%d,%d)", c, ox, oy), buf.Bytes(), "gif", from, opts{anchor: c}, "png")
							process(t, fmt.Sprintf("CropSide %v of a gif frame at (%d,%d)", c, ox, oy), buf.Bytes(), "gif", from, opts{side: c}, "png")
						}
					}
				}
			}
		}
		t.Sample("crops of gif frames at every offset up to 3,3")
	})
	// sizes
	for mode := image.Mode0; mode <= image.Mode5+1; mode++ {
		for part := 0; part < 2; part++ {
			add(fmt.Sprintf("size/mode%d/%d", mode, part), func(t *run.T) { sizes(t, mode, part, pick(thorough, 9, 24)) })
		}
	}
	for _, lower := range []bool{false, true} {
		add(fmt.Sprintf("scale/lower=%v", lower), func(t *run.T) { scales(t, lower, pick(thorough, 9, 20)) })
	}
	for mode := image.Mode0; mode <= image.Mode5+1; mode++ {
		add(fmt.Sprintf("wide/mode%d", mode), func(t *run.T) { wide(t, mode, thorough) })
	}
	for part := 0; part < 8; part++ {
		add(fmt.Sprintf("order/%d", part), func(t *run.T) { order(t, part) })
	}
	for _, z := range [][2]int{{1, 300}, {300, 1}, {255, 257}, {256, 256}, {1000, 3}, {3, 1000}, {4097, 2}, {2, 4097}, {9000, 1}, {1, 9000}, {640, 480}, {1100, 1000}} {
		add(fmt.Sprintf("large/%dx%d", z[0], z[1]), func(t *run.T) { large(t, z[0], z[1]) })
	}
	add("kinds", kinds)
	add("gif-parts", func(t *run.T) { gifParts(t) })
	add("gif-many", func(t *run.T) { gifMany(t) })
	add("filters", func(t *run.T) { filters(t, pick(thorough, 6, 10)) })
	add("filters-by-name", func(t *run.T) { byName(t, pick(thorough, 6, 9)) })
	add("scaled-by-name", func(t *run.T) { scaled(t, pick(thorough, 6, 9)) })
	add("blur", blur)
	add("quality", quality)
	add("gif", func(t *run.T) { gifs(t, thorough) })
	add("broken", func(t *run.T) { broken(t, thorough) })
	return
}

func near(a, b int) bool { return a-b <= 1 && b-a <= 1 }

// keeps tells whether w:h is W:H up to one pixel of rounding.
func keeps(w, h, W, H int) bool {
	return math.Abs(float64(w)-float64(h)*float64(W)/float64(H)) <= 1 || math.Abs(float64(h)-float64(w)*float64(H)/float64(W)) <= 1
}

func sizes(t *run.T, mode image.Mode, part, n int) {
	var lens []int
	for i := 1; i <= n; i++ {
		lens = append(lens, i)
	}
	lens = append(lens, 20, 64)
	for wi, W := range lens {
		if wi%2 != part {
			continue
		}
		for _, H := range lens {
			src := enc("png", mk(W, H, mix).img())
			for _, p := range append([]int{0}, append(lens, n+1, 70)...) {
				for _, q := range append([]int{0}, append(lens, n+1, 70)...) {
					if p == 0 && q == 0 {
						continue
					}
					if !t.More() {
						return
					}
					size1(t, src, W, H, p, q, mode)
				}
			}
		}
	}
	t.Sample("Resize in mode %d of every size in %v to every size", mode, lens)
}

func size1(t *run.T, src []byte, W, H, p, q int, mode image.Mode) {
	what := fmt.Sprintf("Resize of %dx%d to %dx%d in mode %d", W, H, p, q, mode)
	t.NoPanic(what, func() {
		out, err := (&image.Image{}).Resize(src, p, q, mode)
		if err != nil {
			t.Fail("%s returned %v", what, err)
		}
		c, f, err := stdimage.DecodeConfig(bytes.NewReader(out))
		if err != nil || f != "png" {
			t.Fail("%s: the result is %s, %v", what, f, err)
		}
		w, h := c.Width, c.Height
		a, b := p, q // bounds of the long and the short side
		if W < H {
			a, b = q, p
		}
		crop := mode == image.Mode1 || mode == image.Mode5
		if (w > W || h > H) && !(crop && (p == 0 || q == 0)) {
			t.Fail("%s enlarged it to %dx%d", what, w, h)
		}
		if !crop && !keeps(w, h, W, H) {
			t.Fail("%s gives %dx%d: not its proportions", what, w, h)
		}
		switch mode {
		case image.Mode0:
			// fits inside; as large as that allows
			if a > 0 && w > a || b > 0 && h > b {
				if !(w == 1 || h == 1) {
					t.Fail("%s gives %dx%d: larger than asked", what, w, h)
				}
			}
			if !(w == W && h == H || a > 0 && near(w, a) || b > 0 && near(h, b)) {
				t.Fail("%s gives %dx%d: smaller than asked", what, w, h)
			}
		case image.Mode1:
			if p > 0 && q > 0 && p <= W && q <= H && (w != p || h != q) {
				t.Fail("%s gives %dx%d", what, w, h)
			}
		case image.Mode5:
			if a > 0 && b > 0 && a <= W && b <= H && (w != a || h != b) {
				t.Fail("%s gives %dx%d", what, w, h)
			}
		case image.Mode2, image.Mode3, image.Mode4:
			if mode == image.Mode3 {
				a, b = p, q
			}
			if a > 0 && b > 0 {
				// covers, unless the picture itself does not
				if w != W && w < a-1 || h != H && h < b-1 {
					t.Fail("%s gives %dx%d: does not cover what was asked", what, w, h)
				}
				if a < W && b < H && !near(w, a) && !near(h, b) {
					t.Fail("%s gives %dx%d: larger than needed", what, w, h)
				}
			}
		default:
			if w != W || h != H {
				t.Fail("%s gives %dx%d", what, w, h)
			}
		}
	})
	t.Case(1)
}

func scales(t *run.T, lower bool, n int) {
	for W := 1; W <= n; W++ {
		for H := 1; H <= n; H++ {
			src := enc("png", mk(W, H, mix).img())
			for p := 1; p <= n+2; p++ {
				for q := 1; q <= n+2; q++ {
					for _, mp := range []int{-1, 4, 30} {
						if !t.More() {
							return
						}
						o := &image.Options{}
						list := []int{p, q}
						if mp > 0 {
							list = append(list, mp)
						}
						if lower {
							o.ScaleLower = list
						} else {
							o.ScaleUpper = list
						}
						what := fmt.Sprintf("Encode of %dx%d with ScaleUpper %v ScaleLower %v", W, H, o.ScaleUpper, o.ScaleLower)
						// the exact size
						r := float64(W) / float64(H)
						ew, eh := float64(p), float64(q)
						if (r > ew/eh) == lower {
							eh = ew / r
						} else {
							ew = eh * r
						}
						if mp > 0 && math.Floor(ew)*math.Floor(eh) > float64(mp) {
							f := math.Sqrt(float64(mp) / (math.Floor(ew) * math.Floor(eh)))
							ew, eh = math.Floor(ew)*f, math.Floor(eh)*f
						}
						if ew < 1 || eh < 1 {
							continue
						}
						t.NoPanic(what, func() {
							out, err := (&image.Image{}).Encode(src, 0, 0, image.Mode0, o)
							if err != nil {
								t.Fail("%s returned %v", what, err)
							}
							c, _, err := stdimage.DecodeConfig(bytes.NewReader(out))
							if err != nil {
								t.Fail("%s: %v", what, err)
							}
							if math.Abs(float64(c.Width)-ew) > 1 || math.Abs(float64(c.Height)-eh) > 1 || mp > 0 && c.Width*c.Height > mp {
								t.Fail("%s gives %dx%d, want %.2fx%.2f", what, c.Width, c.Height, ew, eh)
							}
						})
						t.Case(1)
					}
				}
			}
		}
	}
	t.Sample("ScaleUpper/ScaleLower of every size up to %dx%d", n, n)
}

// filters resizes single-coloured pictures and gradients with every filter.
func filters(t *run.T, n int) {
	for f := image.NearestNeighbor; f <= image.Cosine+1; f++ {
		for W := 2; W <= n; W++ {
			for H := 2; H <= n; H++ {
				solid := enc("png", mk(W, H, func(x, y int) color.NRGBA { return color.NRGBA{200, 100, 50, 255} }).img())
				step := 200 / max(W-1, 1)
				stepV := 200 / max(H-1, 1)
				grad := enc("png", mk(W, H, func(x, y int) color.NRGBA { return color.NRGBA{uint8(20 + step*x), uint8(20 + stepV*y), 0, 255} }).img())
				for p := 1; p <= W; p++ {
					for q := 1; q <= H; q++ {
						for _, mode := range []image.Mode{image.Mode0, image.Mode1, image.Mode3} {
							if !t.More() {
								return
							}
							what := fmt.Sprintf("Resize of %dx%d to %dx%d in mode %d with filter %d", W, H, p, q, mode, f)
							t.NoPanic(what, func() {
								im := &image.Image{ResizeFilter: f}
								out, err := im.Resize(solid, p, q, mode)
								if err != nil {
									t.Fail("%s returned %v", what, err)
								}
								i, _, err := stdimage.Decode(bytes.NewReader(out))
								if err != nil {
									t.Fail("%s: %v", what, err)
								}
								g := read(i)
								if s := same(g, mk(g.w, g.h, func(x, y int) color.NRGBA { return color.NRGBA{200, 100, 50, 255} }), 2); s != "" {
									t.Fail("%s of a single colour: %s", what, s)
								}
								out, err = im.Resize(grad, p, q, mode)
								if err != nil {
									t.Fail("%s returned %v", what, err)
								}
								i, _, err = stdimage.Decode(bytes.NewReader(out))
								if err != nil {
									t.Fail("%s: %v", what, err)
								}
								g = read(i)
								if f <= image.Linear {
									ratio := max(float64(W)/float64(g.w), float64(H)/float64(g.h)) + 1.2
									for y := 0; y < g.h; y++ {
										for x := 0; x < g.w; x++ {
											if x > 0 && g.at(x, y).R < g.at(x-1, y).R || y > 0 && g.at(x, y).G < g.at(x, y-1).G {
												t.Fail("%s of a gradient is no gradient at (%d,%d)", what, x, y)
											}
											// the middle of the picture stays in the middle
											if o := g.at(g.w-1-x, y).R; math.Abs(float64(g.at(x, y).R)+float64(o)-float64(40+step*(W-1))) > ratio*float64(step) {
												t.Fail("%s of a gradient is off the middle: %d and %d in row %d", what, g.at(x, y).R, o, y)
											}
											if o := g.at(x, g.h-1-y).G; math.Abs(float64(g.at(x, y).G)+float64(o)-float64(40+stepV*(H-1))) > ratio*float64(stepV) {
												t.Fail("%s of a gradient is off the middle: %d and %d in column %d", what, g.at(x, y).G, o, x)
											}
										}
									}
								}
							})
							t.Case(2)
						}
					}
				}
			}
		}
	}
	t.Sample("Resize of single-coloured pictures and gradients with every filter")
}

func blur(t *run.T) {
	for W := 1; W <= 4; W++ {
		for H := 1; H <= 4; H++ {
			m := mk(W, H, func(x, y int) color.NRGBA { return color.NRGBA{200, 100, 50, 255} })
			src := enc("png", m.img())
			for _, s := range []float64{-1, 0, 0.1, 0.5, 1, 3} {
				what := fmt.Sprintf("Blur %v of a single-coloured %dx%d", s, W, H)
				t.NoPanic(what, func() {
					out, err := (&image.Image{}).Encode(src, 0, 0, image.Mode0, &image.Options{Blur: s})
					if err != nil {
						t.Fail("%s returned %v", what, err)
					}
					check(t, what, out, "png", m, true, 2)
				})
				x := mk(W, H, mix)
				t.NoPanic(what, func() {
					out, err := (&image.Image{}).Encode(enc("png", x.img()), 0, 0, image.Mode0, &image.Options{Blur: s})
					if err != nil {
						t.Fail("%s returned %v", what, err)
					}
					check(t, what, out, "png", x, s <= 0, 1)
				})
				t.Case(2)
			}
		}
	}
	t.Sample("Blur of small pictures")
}

func quality(t *run.T) {
	for _, f := range formats {
		for W := 1; W <= 4; W++ {
			for H := 1; H <= 4; H++ {
				m := mk(W, H, mix)
				src := enc(f, m.img())
				i, _, err := stdimage.Decode(bytes.NewReader(src))
				if err != nil {
					panic(err)
				}
				from := read(i)
				for q := 0; q <= 24; q++ {
					what := fmt.Sprintf("QualityByBinary of a %dx%d %s with %d", W, H, f, q)
					t.NoPanic(what, func() {
						out, err := image.QualityByBinary(src, q)
						if err != nil {
							t.Fail("%s returned %v", what, err)
						}
						check(t, what, out, f, from, f == "png" || f == "bmp" || f == "tiff", 0)
						out, err = image.Quality(i, f, q)
						if f == "bmp" {
							if out != nil || err != nil {
								t.Fail("Quality for bmp returned %v, %v", out, err)
							}
							return
						}
						if err != nil {
							t.Fail("%s returned %v", what, err)
						}
						check(t, what, out, f, from, f == "png" || f == "tiff", 0)
					})
					t.Case(2)
				}
			}
		}
	}
	t.Sample("QualityByBinary and Quality of small pictures of every format with 0..24")
}

func gifs(t *run.T, thorough bool) {
	n := pick(thorough, 4, 6)
	pal := color.Palette{color.Black, color.White, color.NRGBA{255, 0, 0, 255}, color.NRGBA{0, 255, 0, 255}}
	for W := 1; W <= n; W++ {
		for H := 1; H <= n; H++ {
			for frames := 1; frames <= 3; frames++ {
				for sub := 0; sub < 2; sub++ {
					g := &gif.GIF{LoopCount: frames - 1}
					for i := 0; i < frames; i++ {
						r := stdimage.Rect(0, 0, W, H)
						if i > 0 && sub == 1 && W > 1 {
							r = stdimage.Rect(1, 0, W, (H+1)/2)
						}
						p := stdimage.NewPaletted(r, pal)
						for j := range p.Pix {
							p.Pix[j] = uint8(i+1) % 4
						}
						g.Image = append(g.Image, p)
						g.Delay = append(g.Delay, 3*i+1)
						g.Disposal = append(g.Disposal, []byte{gif.DisposalNone, gif.DisposalBackground, gif.DisposalPrevious}[i])
					}
					var b bytes.Buffer
					if err := gif.EncodeAll(&b, g); err != nil {
						panic(err)
					}
					src := b.Bytes()
					g, err := gif.DecodeAll(bytes.NewReader(src))
					if err != nil {
						panic(err)
					}
					for p := 0; p <= n+1; p++ {
						for q := 0; q <= n+1; q++ {
							if !t.More() {
								return
							}
							what := fmt.Sprintf("ResizeGIF of %d frames of %dx%d (partial frames: %v) to %dx%d", frames, W, H, sub == 1, p, q)
							t.NoPanic(what, func() {
								out, err := image.ResizeGIF(src, p, q)
								if err != nil {
									t.Fail("%s returned %v", what, err)
								}
								d, err := gif.DecodeAll(bytes.NewReader(out))
								if err != nil {
									t.Fail("%s: the result cannot be decoded: %v", what, err)
								}
								w, h := d.Config.Width, d.Config.Height
								if len(d.Image) != frames || fmt.Sprint(d.Delay) != fmt.Sprint(g.Delay) || fmt.Sprint(d.Disposal) != fmt.Sprint(g.Disposal) || d.LoopCount != g.LoopCount {
									t.Fail("%s: %d frames, delays %v, disposal %v, loop count %d", what, len(d.Image), d.Delay, d.Disposal, d.LoopCount)
								}
								if w > W || h > H || w < 1 || h < 1 || !keeps(w, h, W, H) || p > 0 && w > p && w > 1 || q > 0 && h > q && h > 1 {
									t.Fail("%s gives %dx%d", what, w, h)
								}
								if !(w == W && h == H || p > 0 && near(w, p) || q > 0 && near(h, q)) {
									t.Fail("%s gives %dx%d: smaller than asked", what, w, h)
								}
								for i, f := range d.Image {
									if sub == 0 {
										for _, c := range read(f).p {
											if c != color.NRGBAModel.Convert(pal[(i+1)%4]) {
												t.Fail("%s: frame %d has colour %v", what, i, c)
											}
										}
									}
								}
							})
							t.Case(1)
						}
					}
				}
			}
		}
	}
	t.Sample("ResizeGIF of up to three frames up to %dx%d to every size", n, n)
}

// gifParts: frames that cover a part of the picture, with palettes of their own, and every loop count.
func gifParts(t *run.T) {
	colours := []color.NRGBA{{255, 0, 0, 255}, {0, 255, 0, 255}, {0, 0, 255, 255}, {255, 255, 255, 255}, {200, 100, 0, 255}}
	W, H := 48, 36
	for _, loop := range []int{-1, 0, 1, 2, 1000, 65535} {
		for variant := 0; variant < 4; variant++ {
			g := &gif.GIF{LoopCount: loop, Config: stdimage.Config{Width: W, Height: H}}
			var rects []stdimage.Rectangle
			for i := 0; i < 5; i++ {
				r := stdimage.Rect(0, 0, W, H)
				if i > 0 {
					r = stdimage.Rect(0, 0, W/2, H/2).Add(stdimage.Pt(i%2*W/2, i/3*H/2))
				}
				if variant == 3 {
					r = stdimage.Rect(i*4, i*3, W, H)
				}
				pal := color.Palette{color.NRGBA{}, color.Black}
				switch variant {
				case 0:
					pal = append(pal, colours[i])
				case 1: // the colours in another order in every frame
					for j := range colours {
						pal = append(pal, colours[(j+i)%len(colours)])
					}
				default:
					for _, c := range colours {
						pal = append(pal, c)
					}
				}
				p := stdimage.NewPaletted(r, pal)
				for j := range p.Pix {
					p.Pix[j] = uint8(pal.Index(colours[i]))
				}
				rects = append(rects, r)
				g.Image = append(g.Image, p)
				g.Delay = append(g.Delay, 5*i)
				g.Disposal = append(g.Disposal, []byte{gif.DisposalNone, gif.DisposalBackground, gif.DisposalPrevious}[i%3])
			}
			var b bytes.Buffer
			if err := gif.EncodeAll(&b, g); err != nil {
				panic(err)
			}
			src := b.Bytes()
			for _, to := range [][2]int{{0, 0}, {W, H}, {W / 2, 0}, {0, H / 2}, {W / 3, H / 3}, {40, 40}, {100, 100}, {24, 9}} {
				if !t.More() {
					return
				}
				what := fmt.Sprintf("ResizeGIF of frames at %v (variant %d, loop count %d) to %v", rects, variant, loop, to)
				t.NoPanic(what, func() {
					out, err := image.ResizeGIF(src, to[0], to[1])
					if err != nil {
						t.Fail("%s returned %v", what, err)
					}
					d, err := gif.DecodeAll(bytes.NewReader(out))
					if err != nil {
						t.Fail("%s: the result cannot be decoded: %v", what, err)
					}
					if len(d.Image) != len(g.Image) || fmt.Sprint(d.Delay) != fmt.Sprint(g.Delay) || fmt.Sprint(d.Disposal) != fmt.Sprint(g.Disposal) || d.LoopCount != loop {
						t.Fail("%s: %d frames, delays %v, disposal %v, loop count %d", what, len(d.Image), d.Delay, d.Disposal, d.LoopCount)
					}
					for i, f := range d.Image {
						// most of the inside of the part has its colour
						x0, x1 := rects[i].Min.X*d.Config.Width/W, rects[i].Max.X*d.Config.Width/W
						y0, y1 := rects[i].Min.Y*d.Config.Height/H, rects[i].Max.Y*d.Config.Height/H
						all, same := 0, 0
						for x := x0 + (x1-x0)/4; x <= x1-1-(x1-x0)/4; x++ {
							for y := y0 + (y1-y0)/4; y <= y1-1-(y1-y0)/4; y++ {
								all++
								if (stdimage.Point{X: x, Y: y}).In(f.Bounds()) && color.NRGBAModel.Convert(f.At(x, y)) == colours[i] {
									same++
								}
							}
						}
						if same*2 <= all {
							t.Fail("%s: of %d points in the middle of frame %d only %d have its colour", what, all, i, same)
						}
					}
				})
				t.Case(1)
			}
		}
	}
	t.Sample("ResizeGIF of partial frames with palettes of their own")
}

// wide resizes pictures that are far from square or big.
func wide(t *run.T, mode image.Mode, thorough bool) {
	for _, z := range [][2]int{{300, 3}, {3, 300}, {1000, 7}, {7, 1000}, {256, 255}, {257, 256}, {640, 480}, {480, 641}, {5000, 5}, {5, 5000}, {1023, 1025}, {2001, 3}, {3, 2001}} {
		W, H := z[0], z[1]
		src := enc("png", mk(W, H, mix).img())
		to := []int{0, 1, 2, 3, 7, 99, 100, 255, 256, 257, 479, 1000, 1024, 4999, 6000}
		if !thorough {
			to = []int{0, 1, 3, 100, 255, 479, 1024, 6000}
		}
		for _, p := range to {
			for _, q := range to {
				if p == 0 && q == 0 || p*q > 1<<18 && !thorough && W*H > 20000 && (p+q)%2 == 0 {
					continue
				}
				// with a side left open the picture may grow with the other one
				if p == 0 && (H < 50 || W < 50) && q > 300 || q == 0 && (H < 50 || W < 50) && p > 300 {
					continue
				}
				if !t.More() {
					return
				}
				size1(t, src, W, H, p, q, mode)
			}
		}
	}
	t.Sample("Resize in mode %d of wide, high and big pictures", mode)
}

// order: all options at once give the picture that the stages give one after the other.
func order(t *run.T, part int) {
	type st struct {
		p, q int
		mode image.Mode
		o    *image.Options
	}
	one := func(o image.Options) *st { return &st{o: &o} }
	stages := [][]*st{
		{nil, one(image.Options{CropAnchor: []int{8, 6, 2, 1}})},
		{nil, one(image.Options{CropSide: []int{7, 5, 3, 2}})},
		{nil, one(image.Options{ScaleUpper: []int{9, 5}})},
		{nil, one(image.Options{ScaleLower: []int{6, 6}})},
		{nil, {p: 4, q: 3}, {p: 3, q: 4, mode: image.Mode1}, {p: 3, q: 3, mode: image.Mode2}, {p: 5, mode: image.Mode3}, {q: 3, mode: image.Mode5}},
		{nil, one(image.Options{Gray: true})},
		{nil, one(image.Options{Invert: true})},
		{nil, one(image.Options{Rotate: 90}), one(image.Options{Rotate: 180})},
		{nil, one(image.Options{FlipH: true})},
		{nil, one(image.Options{FlipV: true})},
		{nil, one(image.Options{Blur: 0.7})},
	}
	nth := 0
	for _, z := range [][2]int{{11, 9}, {7, 12}} {
		src := enc("png", mk(z[0], z[1], mix).img())
		var rec func(i int, done []byte, p, q int, mode image.Mode, o image.Options)
		rec = func(i int, done []byte, p, q int, mode image.Mode, o image.Options) {
			if !t.More() {
				return
			}
			if i == len(stages) {
				if nth++; nth%8 != part {
					return
				}
				what := fmt.Sprintf("Encode of a %dx%d png with %+v, resized to %dx%d in mode %d", z[0], z[1], o, p, q, mode)
				t.NoPanic(what, func() {
					out, err := (&image.Image{}).Encode(src, p, q, mode, &o)
					if err != nil {
						t.Fail("%s: %v", what, err)
					}
					a, _, err := stdimage.Decode(bytes.NewReader(out))
					b, _, err2 := stdimage.Decode(bytes.NewReader(done))
					if err != nil || err2 != nil {
						t.Fail("%s: the result cannot be decoded: %v, %v", what, err, err2)
					}
					if s := same(read(a), read(b), 1); s != "" {
						t.Fail("%s: %s as one step after the other gives", what, s)
					}
				})
				t.Case(1)
				return
			}
			for _, s := range stages[i] {
				if s == nil {
					rec(i+1, done, p, q, mode, o)
					continue
				}
				next, err := (&image.Image{}).Encode(done, s.p, s.q, s.mode, s.o)
				if err != nil {
					t.Fail("Encode with %+v: %v", s, err)
				}
				p2, q2, m2, o2 := p, q, mode, o
				if s.o == nil {
					p2, q2, m2 = s.p, s.q, s.mode
				} else {
					switch i {
					case 0:
						o2.CropAnchor = s.o.CropAnchor
					case 1:
						o2.CropSide = s.o.CropSide
					case 2:
						o2.ScaleUpper = s.o.ScaleUpper
					case 3:
						o2.ScaleLower = s.o.ScaleLower
					case 5:
						o2.Gray = true
					case 6:
						o2.Invert = true
					case 7:
						o2.Rotate = s.o.Rotate
					case 8:
						o2.FlipH = true
					case 9:
						o2.FlipV = true
					case 10:
						o2.Blur = s.o.Blur
					}
				}
				rec(i+1, next, p2, q2, m2, o2)
			}
		}
		rec(0, src, 0, 0, image.Mode0, image.Options{})
	}
	t.Sample("every combination of options against one option after the other")
}

// large checks the pixels of bigger pictures.
func large(t *run.T, W, H int) {
	for transparent, px := range []func(x, y int) color.NRGBA{mix, mixA} {
		m := mk(W, H, px)
		src := enc("png", m.img())
		for _, o := range []opts{{}, {rotate: 90}, {rotate: 270, invert: true}, {rotate: 180, gray: true}, {fh: true}, {fv: true, rotate: -90},
			{anchor: []int{W/2 + 1, H/2 + 1, W / 3, H / 3}}, {side: []int{W/2 + 1, H/2 + 1, W, H}}, {anchor: []int{W, H, W - 1, 0}}, {side: []int{1, 1, W - 1, H - 1}}} {
			for _, f := range []string{"", "bmp", "tiff", "webp", "jpg"} {
				if f == "webp" && W*H > 400000 || !t.More() {
					continue
				}
				if transparent > 0 && (f == "bmp" || f == "webp") { // bmp has no transparency, the encoder for webp multiplies it in
					continue
				}
				process(t, fmt.Sprintf("Encode of a %dx%d png to %q with %+v", W, H, f, o), src, "png", m, o, f)
			}
		}
		if W*H > 400000 {
			break
		}
	}
	for _, f := range formats {
		src := enc(f, mk(W, H, mix).img())
		t.NoPanic("QualityByBinary", func() {
			for _, q := range []int{1, 5, 24} {
				out, err := image.QualityByBinary(src, q)
				if err != nil {
					t.Fail("QualityByBinary of a %dx%d %s with %d returned %v", W, H, f, q, err)
				}
				c, name, err := stdimage.DecodeConfig(bytes.NewReader(out))
				if err != nil || name != f || c.Width != W || c.Height != H {
					t.Fail("QualityByBinary of a %dx%d %s with %d gives a %s of %dx%d, %v", W, H, f, q, name, c.Width, c.Height, err)
				}
				t.Case(1)
			}
		})
	}
	t.Sample("pictures of %dx%d", W, H)
}

// kinds: sources of other colour models than 8 bit true colour.
func kinds(t *run.T) {
	for _, z := range [][2]int{{1, 1}, {3, 2}, {2, 5}, {9, 4}, {17, 16}} {
		W, H := z[0], z[1]
		r := stdimage.Rect(0, 0, W, H)
		pal := color.Palette{}
		for i := 0; i < 200; i++ {
			pal = append(pal, mix(i, i/3))
		}
		for name, i := range map[string]interface {
			stdimage.Image
			Set(x, y int, c color.Color)
		}{"gray": stdimage.NewGray(r), "gray16": stdimage.NewGray16(r), "nrgba64": stdimage.NewNRGBA64(r), "rgba64": stdimage.NewRGBA64(r), "rgba": stdimage.NewRGBA(r),
			"paletted": stdimage.NewPaletted(r, pal), "two colours": stdimage.NewPaletted(r, color.Palette{color.Black, color.White})} {
			for y := 0; y < H; y++ {
				for x := 0; x < W; x++ {
					c := mix(x, y)
					i.Set(x, y, color.NRGBA64{uint16(c.R)<<8 | uint16(c.B), uint16(c.G)<<8 | uint16(c.R), uint16(c.B)<<8 | uint16(c.G), 0xffff})
				}
			}
			for _, f := range []string{"png", "tiff"} {
				src := enc(f, i)
				d, _, err := stdimage.Decode(bytes.NewReader(src))
				if err != nil {
					panic(err)
				}
				from := read(d)
				for _, a := range []string{"", "png", "tiff", "bmp", "webp", "jpg", "gif"} {
					for c := 0; c < 32; c++ {
						o := opts{gray: c&1 > 0, invert: c&2 > 0, fh: c&4 > 0, fv: c&8 > 0, rotate: c >> 4 * 90}
						if c%3 == 1 {
							o.anchor = []int{W/2 + 1, H/2 + 1, W / 2, H / 2}
						}
						if c%5 == 2 {
							o.side = []int{W/2 + 1, H/2 + 1, W / 2, H}
						}
						process(t, fmt.Sprintf("Encode of a %dx%d %s (%s) to %q with %+v", W, H, f, name, a, o), src, f, from, o, a)
						if !t.More() {
							return
						}
					}
				}
			}
		}
	}
	t.Sample("gray, 16 bit and paletted pictures")
}

// gifMany: many frames, and bigger ones.
func gifMany(t *run.T) {
	pal := color.Palette{color.Black, color.White, color.NRGBA{255, 0, 0, 255}, color.NRGBA{0, 255, 0, 255}}
	for _, z := range [][3]int{{5, 4, 10}, {4, 5, 64}, {5, 5, 65}, {3, 4, 100}, {4, 3, 257}, {3, 3, 1001}, {300, 200, 3}, {2, 700, 2}, {700, 2, 2}} {
		W, H, frames := z[0], z[1], z[2]
		g := &gif.GIF{LoopCount: frames}
		for i := 0; i < frames; i++ {
			p := stdimage.NewPaletted(stdimage.Rect(0, 0, W, H), pal)
			for j := range p.Pix {
				p.Pix[j] = uint8(i/3+i) % 4
			}
			g.Image = append(g.Image, p)
			g.Delay = append(g.Delay, i*7%3000)
			g.Disposal = append(g.Disposal, []byte{gif.DisposalNone, gif.DisposalBackground, gif.DisposalPrevious}[i%3])
		}
		var b bytes.Buffer
		if err := gif.EncodeAll(&b, g); err != nil {
			panic(err)
		}
		for _, to := range [][2]int{{0, 0}, {2, 2}, {W, H}, {W / 2, 0}, {0, H / 2}, {2 * W, 2 * H}, {1, 1}} {
			if !t.More() {
				return
			}
			what := fmt.Sprintf("ResizeGIF of %d frames of %dx%d to %v", frames, W, H, to)
			t.NoPanic(what, func() {
				out, err := image.ResizeGIF(b.Bytes(), to[0], to[1])
				if err != nil {
					t.Fail("%s returned %v", what, err)
				}
				d, err := gif.DecodeAll(bytes.NewReader(out))
				if err != nil {
					t.Fail("%s: the result cannot be decoded: %v", what, err)
				}
				w, h := d.Config.Width, d.Config.Height
				if len(d.Image) != frames || fmt.Sprint(d.Delay) != fmt.Sprint(g.Delay) || fmt.Sprint(d.Disposal) != fmt.Sprint(g.Disposal) || d.LoopCount != g.LoopCount {
					t.Fail("%s: %d frames, delays %v, disposal %v, loop count %d", what, len(d.Image), d.Delay, d.Disposal, d.LoopCount)
				}
				if w > W || h > H || !keeps(w, h, W, H) || to[0] > 0 && w > to[0] || to[1] > 0 && h > to[1] {
					t.Fail("%s gives %dx%d", what, w, h)
				}
				for i, f := range d.Image {
					for _, c := range read(f).p {
						if c != color.NRGBAModel.Convert(pal[(i/3+i)%4]) {
							t.Fail("%s: frame %d has colour %v", what, i, c)
						}
					}
				}
			})
			t.Case(1)
		}
	}
	t.Sample("up to 1001 frames")
}

// broken decodes damaged files.
func broken(t *run.T, thorough bool) {
	try := func(what string, b []byte) {
		t.NoPanic(what, func() {
			keep := append([]byte(nil), b...)
			_, _, derr := stdimage.Decode(bytes.NewReader(b))
			out, err := (&image.Image{}).Encode(b, 3, 3, image.Mode0, &image.Options{Rotate: 90})
			if derr != nil && (err != nil || !bytes.Equal(out, keep)) {
				t.Fail("Encode of %s returned other data or %v", what, err)
			}
			_, err = image.QualityByBinary(b, 5)
			if derr != nil && err == nil {
				t.Fail("QualityByBinary of %s returned no error", what)
			}
			_, gerr := gif.DecodeAll(bytes.NewReader(b))
			out, err = image.ResizeGIF(b, 2, 2)
			if gerr != nil && (err == nil || !bytes.Equal(out, keep)) {
				t.Fail("ResizeGIF of %s returned %.20x, %v", what, out, err)
			}
			if !bytes.Equal(b, keep) {
				t.Fail("%s was changed", what)
			}
		})
		t.Case(3)
	}
	try("nothing", nil)
	for i := 0; i < 256; i++ {
		try(fmt.Sprintf("the byte %d", i), []byte{byte(i)})
	}
	for _, f := range formats {
		src := enc(f, mk(3, 2, mix).img())
		for n := 0; n < len(src); n++ {
			if n > 1000 && n%16 != 0 {
				continue
			}
			if !t.More() {
				return
			}
			try(fmt.Sprintf("the first %d of %d bytes of a %s", n, len(src), f), append([]byte(nil), src[:n]...))
		}
		if f == "bmp" || f == "tiff" {
			continue // a changed size would make the decoders allocate gigabytes
		}
		for n := 0; n < len(src); n++ {
			for _, v := range []byte{0, 1, 0x7f, 0x80, 0xff} {
				if n > 300 && n%16 != 0 || src[n] == v || !thorough && v == 1 {
					continue
				}
				if !t.More() {
					return
				}
				b := append([]byte(nil), src...)
				b[n] = v
				try(fmt.Sprintf("a %s with byte %d of %d set to %d", f, n, len(src), v), b)
			}
		}
	}
	t.Sample("every truncation of a picture of every format")
}
