module verifmc

go 1.24

require (
	github.com/CrowdStrike/gql v0.0.0
	github.com/vektah/gqlparser/v2 v2.5.1
)

require (
	github.com/agnivade/levenshtein v1.0.1 // indirect
	github.com/inconshreveable/mousetrap v1.1.0 // indirect
	github.com/spf13/cobra v1.7.0 // indirect
	github.com/spf13/pflag v1.0.5 // indirect
)

replace github.com/CrowdStrike/gql => /repo

replace github.com/agnivade/levenshtein => ./third_party/levenshtein
