// Code generated by genshim. DO NOT EDIT.

package vfilepath

import real "path/filepath"

var Base = real.Base
var Clean = real.Clean
var Dir = real.Dir
var ErrBadPattern = real.ErrBadPattern
var Ext = real.Ext
var FromSlash = real.FromSlash
var HasPrefix = real.HasPrefix
var IsAbs = real.IsAbs
var IsLocal = real.IsLocal
var Join = real.Join
const ListSeparator = real.ListSeparator
var Localize = real.Localize
var Match = real.Match
var Rel = real.Rel
const Separator = real.Separator
var SkipAll = real.SkipAll
var SkipDir = real.SkipDir
var Split = real.Split
var SplitList = real.SplitList
var ToSlash = real.ToSlash
var VolumeName = real.VolumeName
type WalkFunc = real.WalkFunc
