for k in "parens" "closed parens" "nested calls" "nested shell" "nested json" "brackets" "closed brackets" "objects" "closing" "long line" "many lines" "many commands" "many arguments" "many json" "json array" "backslashes" "quotes" "semicolons" "regexp groups" "regexp stars" "regexp repeat" "long symbol" "digits" "xml"; do for n in 9000 100000 1000000; do
case "$k" in regexp*) n=1000;; many*|json*) [ $n -gt 20000 ] && n=20000;; esac
echo "{\"kind\":\"$k\",\"n\":$n}" > c.json; mkdir -p sc1
/usr/bin/time -f "%U+%S $k $n" ./h one -prop C02 -spec "huge scripts" -case c.json -verif /tmp/w/v -bin ./texted -repo /repo -scratch sc1 2>&1 | tail -n 1; done; done
