// Package props holds the executable properties.
package props
