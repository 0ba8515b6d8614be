module vp

go 1.24

require gopkg.in/yaml.v2 v2.4.0
