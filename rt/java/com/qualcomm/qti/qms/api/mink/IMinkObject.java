package com.qualcomm.qti.qms.api.mink;

/** Stand-in for the Mink Java API the generated code is written against. */
public interface IMinkObject {
    int ERROR_OK = 0;
    int ERROR_INVALID = 2;
    int ERROR_SIZE_IN = 3;
    int ERROR_SIZE_OUT = 4;
    int ERROR_BADOBJ = -93;
    int ERROR_UNAVAIL = -92;

    class InvokeException extends Exception {
        private static final long serialVersionUID = 1L;
        public final int code;
        public InvokeException(int code) {
            super("invoke error " + code);
            this.code = code;
        }
        public int getErrorCode() { return code; }
    }

    void invoke(int methodID, byte[][] bi, int[] boSizes, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) throws InvokeException;
    void retain();
    void release();
    boolean isNull();
}
