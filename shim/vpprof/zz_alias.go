// Code generated by genshim. DO NOT EDIT.

package vpprof

import real "runtime/pprof"

var Do = real.Do
var ForLabels = real.ForLabels
var Label = real.Label
type LabelSet = real.LabelSet
var Labels = real.Labels
var NewProfile = real.NewProfile
var Profiles = real.Profiles
var SetGoroutineLabels = real.SetGoroutineLabels
var WithLabels = real.WithLabels
