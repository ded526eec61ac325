module storecheck

go 1.26
