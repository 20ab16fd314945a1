// Package bindsched drives package bind under the controlled scheduler.
package bindsched
