package utl

func ToAnyList[T any](l []T) []any {
	ret := make([]any, len(l))
	for i, v := range l {
		ret[i] = v
	}
	return ret
}
