package hints

var words []string

var numbers []int

var tasks = false
