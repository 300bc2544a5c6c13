module github.com/fairdatasociety/fairOS-dfs

go 1.21

require github.com/sirupsen/logrus v1.9.3
