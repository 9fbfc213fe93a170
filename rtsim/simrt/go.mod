module verif.local/simrt

go 1.27

require verif.local/simk v0.0.0

replace verif.local/simk => ../simk
