INIT Init NEXT Next
