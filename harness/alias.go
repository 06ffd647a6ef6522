package harness

import (
	"reflect"

	"github.com/vim-jp/go-vimlparser/ast"

	"verif/draw"
)

type draw_ = draw.D

// linepos is where the line of a command begins.
func linepos(x ast.ExCommand) *ast.Pos {
	v := reflect.ValueOf(x)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return nil
	}
	f := v.Elem().FieldByName("ExArg")
	if !f.IsValid() {
		return nil
	}
	ea, ok := f.Interface().(ast.ExArg)
	if !ok {
		return nil
	}
	return ea.Linepos
}
