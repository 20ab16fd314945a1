// Package scheddrv is the driver of everything that runs under the controlled scheduler.
package scheddrv
