// Code generated by genshim. DO NOT EDIT.

package vrand

import real "math/rand"

var New = real.New
var NewZipf = real.NewZipf
type Rand = real.Rand
type Source = real.Source
type Source64 = real.Source64
type Zipf = real.Zipf
