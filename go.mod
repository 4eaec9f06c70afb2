module babsim

go 1.25
