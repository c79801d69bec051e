package main

import (
	"go/ast"
	"reflect"
)

var exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
var stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
var nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()

// replaceExprs passes every direct child expression/statement of n through the rewriter.
func replaceExprs(n ast.Node, r *rw) {
	v := reflect.ValueOf(n)
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		name := v.Type().Field(i).Name
		if name == "Obj" || name == "Scope" || name == "Unresolved" || name == "Doc" || name == "Comment" || name == "Comments" {
			continue
		}
		child(f, r)
	}
}

func child(f reflect.Value, r *rw) {
	switch f.Kind() {
	case reflect.Interface:
		if f.IsNil() {
			return
		}
		switch {
		case f.Type() == exprT:
			f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
		case f.Type() == stmtT:
			f.Set(reflect.ValueOf(r.stmt(f.Interface().(ast.Stmt))))
		default:
			if nd, ok := f.Interface().(ast.Node); ok {
				r.node(nd)
			}
		}
	case reflect.Ptr:
		if f.IsNil() {
			return
		}
		if f.Type().Implements(nodeT) {
			if bs, ok := f.Interface().(*ast.BlockStmt); ok {
				r.block(bs.List)
				return
			}
			if fl, ok := f.Interface().(*ast.FuncLit); ok {
				r.expr(fl)
				return
			}
			if ce, ok := f.Interface().(*ast.CallExpr); ok { // defer
				if c, ok := r.expr(ce).(*ast.CallExpr); ok {
					f.Set(reflect.ValueOf(c))
				}
				return
			}
			r.node(f.Interface().(ast.Node))
		}
	case reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			child(f.Index(i), r)
		}
	}
}
