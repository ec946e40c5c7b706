// Simulation seam added to package net through a build overlay.

package net

import "context"

// SimDial, when set, serves every Dial of a simulated goroutine.
var SimDial func(ctx context.Context, network, address string) (Conn, error)
