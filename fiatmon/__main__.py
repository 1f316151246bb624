from fiatmon.core import main
main()
