// Package vtextcase stands in for textcase; its functions mark their argument.
package vtextcase

func CamelCase(s string) string  { return "camel(" + s + ")" }
func PascalCase(s string) string { return "pascal(" + s + ")" }
func SnakeCase(s string) string  { return "snake(" + s + ")" }
func KebabCase(s string) string  { return "kebab(" + s + ")" }
