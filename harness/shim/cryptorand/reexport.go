// Code generated by tools/genshim from crypto/rand; DO NOT EDIT.

package rand

import real "crypto/rand"

var Prime = real.Prime
