// Package simfilepath is path/filepath on the simulated system.
package simfilepath

import (
	"io/fs"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"verif/simos"
)

func Abs(name string) (string, error) {
	if path.IsAbs(name) {
		return path.Clean(name), nil
	}
	wd, err := simos.Getwd()
	return path.Join(wd, name), err
}

func EvalSymlinks(name string) (string, error) {
	if _, err := simos.Lstat(name); err != nil {
		return "", err
	}
	return path.Clean(name), nil
}

func Glob(pattern string) (matches []string, err error) {
	if _, err := path.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, err := simos.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := path.Split(pattern)
	dirs := []string{dir}
	if strings.ContainsAny(dir, `*?[\`) {
		if dirs, err = Glob(strings.TrimSuffix(dir, "/")); err != nil {
			return nil, err
		}
	}
	for _, d := range dirs {
		in := d
		if in == "" {
			in = "."
		}
		es, _ := simos.ReadDir(in)
		for _, e := range es {
			if ok, _ := path.Match(file, e.Name()); ok {
				if d == "" {
					matches = append(matches, e.Name())
				} else {
					matches = append(matches, path.Join(d, e.Name()))
				}
			}
		}
	}
	sort.Strings(matches)
	return matches, nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(i), fn)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func walk(name string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(name, d, nil); err != nil || !d.IsDir() {
		if err == fs.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := simos.ReadDir(name)
	if err != nil {
		if err = fn(name, d, err); err != nil {
			if err == fs.SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walk(path.Join(name, e.Name()), e, fn); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	return WalkDir(root, func(name string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(name, nil, err)
		}
		i, ierr := d.Info()
		if err == nil {
			err = ierr
		}
		return fn(name, i, err)
	})
}
