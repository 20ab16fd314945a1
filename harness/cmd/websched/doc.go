// Package websched drives package web under the controlled scheduler.
package websched
