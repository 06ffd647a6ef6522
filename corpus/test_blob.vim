echo 0z
echo 0z11
echo 0zdeadbeef
echo 0Zdeadbeef
echo 0zDEADBEEF
echo 0ZDEADBEEF
echo 0ZDEAD.BEEF
echo 0z00 + 0zFF
