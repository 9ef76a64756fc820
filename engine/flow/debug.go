package flow

// DebugForks prints partitions.
var DebugForks = false
