helpfind
